"""Random resources of any (or no) format, with unique identifiers."""
from __future__ import annotations

from moz.l10n.formats import Format
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, LinePos, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef

from . import gen


def meta(rng, n=3):
    return [Metadata(rng.choice(["a", "b", "k", ""]), rng.choice(["1", "2", "x y", ""])) for _ in range(rng.choice([0, 0, 1, n]))]


def comment(rng):
    return rng.choice(["", "", "A", "B", "A B", gen.plain(rng), "x\ny", "c\n\nd"])


def pattern(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.6:
            out.append(gen.text(rng, 3))
        elif r < 0.9:
            out.append(Expression(VariableRef(gen.word(rng, 1, 3)), rng.choice([None, "number"]), {}, {} if rng.random() < 0.5 else {"source": "%s"}))
        else:
            out.append(Markup(rng.choice(["open", "close", "standalone"]), "b", {"id": "1"} if rng.random() < 0.5 else {}))
    return out


def message(rng, strings=False):
    if strings:
        return gen.text(rng, 3)
    if rng.random() < 0.8:
        return PatternMessage(pattern(rng), {"v": Expression("x")} if rng.random() < 0.2 else {})
    return SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {("one",): pattern(rng), ("two",): pattern(rng), (CatchallKey("other"),): pattern(rng)})


def entry(rng, id, strings=False):
    e = Entry(id, message(rng, strings), comment=comment(rng), meta=meta(rng))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        e.properties[gen.word(rng, 1, 3)] = message(rng, strings)
    if rng.random() < 0.3:
        e.linepos = LinePos(1, 2, 3, rng.randint(3, 9))
    return e


IDS = [("a",), ("b",), ("c",), ("d",), ("e",), ("a", "b"), ("c", "b"), ("a", "d", "b"), ("c", "d", "b"), ("f",), ("g",), ("h",), ("é",), ("-t",)]
SIDS = [(), (), (), ("s",), ("t",), ("s", "u")]


def resource(rng, strings=False, comments=True, max_sections=4):
    """Entries are unique by section and entry identifier; sections may share an identifier."""
    used = set()
    secs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, max_sections])):
        sid = rng.choice(SIDS)
        s = Section(sid, [], comment=rng.choice(["", "", "A", "B", comment(rng)]), meta=meta(rng) if rng.random() < 0.3 else [])
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            if comments and rng.random() < 0.2:
                s.entries.append(Comment(comment(rng)))
            id = rng.choice(IDS)
            if (sid, id) not in used:
                used.add((sid, id))
                s.entries.append(entry(rng, id, strings))
        secs.append(s)
    return Resource(rng.choice([None, Format.fluent, Format.ini, Format.xliff]), secs, comment=comment(rng), meta=meta(rng) if rng.random() < 0.4 else [])
