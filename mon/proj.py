"""Random localization projects: source files of every format, with localizations derived from them.

The files are written here from plain records, without the library's serializers.
"""
from __future__ import annotations

import json
import logging
import os
from dataclasses import dataclass, field, replace
from html import escape
from os.path import dirname, join

from . import gen

FORMATS = ["fluent", "properties", "dtd", "inc", "ini", "gettext", "plain_json", "webext", "android", "xliff"]
EXT = {"fluent": ".ftl", "properties": ".properties", "dtd": ".dtd", "inc": ".inc", "ini": ".ini", "gettext": ".po", "plain_json": ".json", "webext": ".json", "android": ".xml", "xliff": ".xliff"}
#: what every generated comment contains
MARK = "QQc"


@dataclass
class E:
    sid: tuple
    id: tuple
    value: str  # "" for a Fluent message with attributes only
    attrs: dict = field(default_factory=dict)
    comment: str = ""
    kind: str = ""  # "", "plural", "array"
    obsolete: bool = False
    lc: str = "en"

    def key(self):
        return (self.sid, self.id)


WORDS = ["one", "two", "open", "close", "file", "été", "näyttö", "日本", "x.", "a, b", "1", "ok?"]
PH = {"fluent": "{ $x }", "properties": "%S", "dtd": "&brand;", "inc": "%s", "ini": "%s", "gettext": "%s", "plain_json": "{x}", "webext": "$X$", "android": "%1$s", "xliff": "%@"}


def value(rng, fmt, tag=""):
    v = " ".join([tag or "v"] + [rng.choice(WORDS) for _ in range(rng.choice([0, 1, 2, 4]))])
    if rng.random() < 0.3:
        v += " " + PH[fmt] + rng.choice(["", " end"])
    return v


def comment(rng):
    return f"{MARK} {rng.choice(WORDS)} {rng.choice(['', 'more', 'x = y'])}".rstrip() if rng.random() < 0.35 else ""


NAMES = ["a", "b", "c", "d", "e", "foo", "bar", "baz", "key1", "key-2", "title", "label", "open", "close", "x-y", "tools"]
SIDS = {"ini": [("Strings",), ("Other",), ("A B",)], "xliff": [("f1",), ("f2.ts",), ("f1", "g"), ("f1", "g", "h"), ("f2.ts", "g")]}


def ident(rng, fmt):
    n = rng.choice(NAMES)
    if fmt == "fluent":
        return ("-" + n,) if rng.random() < 0.15 else (n,)
    if fmt in ("properties", "dtd") and rng.random() < 0.4:
        return (n + "." + rng.choice(NAMES),)
    if fmt in ("inc", "webext", "android"):
        return (n.replace("-", "_"),)
    if fmt == "gettext":
        n = n + rng.choice(["", " it", " %s", "\n"])
        return (n, rng.choice(["ctx", "menu"])) if rng.random() < 0.3 else (n,)
    if fmt == "plain_json":
        return tuple(rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3])))
    return (n,)


def clash(fmt, used, sid, id):
    if (sid, id) in used:
        return True
    if fmt == "plain_json":
        return any(id[:len(u)] == u or u[:len(id)] == id for _, u in used)
    if fmt == "webext":
        return any(id[0].lower() == u[0].lower() for _, u in used)
    return False


def one(rng, fmt, sid, id, tag):
    e = E(sid, id, value(rng, fmt, tag), comment=comment(rng), lc=tag)
    if fmt == "fluent":
        for _ in range(rng.choice([0, 0, 1, 2])):
            e.attrs[rng.choice(["title", "label", "accesskey"])] = value(rng, fmt, tag)
        if e.attrs and id[0][0] != "-" and rng.random() < 0.3:
            e.value = ""
    if fmt == "android" and rng.random() < 0.3:
        e.kind = rng.choice(["plural", "array"])
    if fmt == "gettext" and rng.random() < 0.25:
        e.kind = "plural"
    return e


def entries(rng, fmt, tag="en", n=None, used=None):
    used = set() if used is None else used
    sids = [()]
    if fmt in SIDS:
        sids = rng.sample(SIDS[fmt], rng.choice([1, 2, len(SIDS[fmt])]))
        if fmt == "xliff":
            sids = [s for i in range(len(sids)) for s in [sids[i]]]
    out = []
    for _ in range(rng.choice([1, 2, 4, 7]) if n is None else n):
        sid = rng.choice(sids)
        id = ident(rng, fmt)
        if clash(fmt, used, sid, id):
            continue
        used.add((sid, id))
        out.append(one(rng, fmt, sid, id, tag))
    return order(fmt, out)


def order(fmt, es):
    """Entries of one section together, in the order in which the files are written."""
    if fmt in SIDS:
        first = {}
        for e in es:
            for i in range(1, len(e.sid) + 1):
                first.setdefault(e.sid[:i], len(first))
        if fmt == "xliff":
            return sorted(es, key=lambda e: [first[e.sid[:i]] for i in range(1, len(e.sid) + 1)])
        return sorted(es, key=lambda e: first[e.sid])
    if fmt == "plain_json":
        first = {}
        for e in es:
            for i in range(1, len(e.id) + 1):
                first.setdefault(e.id[:i], len(first))
        return sorted(es, key=lambda e: [first[e.id[:i]] for i in range(1, len(e.id) + 1)])
    return es


def localize(rng, fmt, src, lc, extra=True):
    """A localization of some of the entries of src, with some of its own."""
    out = []
    for e in src:
        if rng.random() < 0.25:
            continue
        n = one(rng, fmt, e.sid, e.id, lc)
        n.kind = e.kind
        if fmt == "fluent":
            k = rng.random()
            if k < 0.6:
                n.attrs = {a: value(rng, fmt, lc) for a in e.attrs}
                n.value = e.value and n.value
            if not n.attrs and not n.value:
                n.value = value(rng, fmt, lc)
        if fmt == "gettext" and rng.random() < 0.08:
            n.obsolete = True
        out.append(n)
    if rng.random() < 0.4:
        rng.shuffle(out)
    if extra and rng.random() < 0.6:
        more = entries(rng, fmt, lc, rng.choice([1, 2, 3]), {e.key() for e in src})
        for m in more:
            out.insert(rng.randint(0, len(out)), m)
    return order(fmt, out)


def q(s):
    return json.dumps(s, ensure_ascii=False)


def render(fmt, es, rng=None, lc="en", comments=True, heads={}):
    """The text of a file with these entries."""
    c = (lambda s: s) if comments else (lambda s: "")
    extra = rng is not None and comments
    out = []
    alone = lambda p=0.2: f"{MARK} standalone" if extra and rng.random() < p else ""
    if fmt == "fluent":
        if alone():
            out.append(f"### {MARK} resource\n\n")
        for e in es:
            if alone():
                out.append(f"# {MARK} standalone\n\n")
            if alone(0.1):
                out.append(f"\n## {MARK} group\n\n")
            if c(e.comment):
                out.append(f"# {e.comment}\n")
            out.append(f"{e.id[0]} = {e.value}".rstrip() + "\n" + "".join(f"    .{a} = {v}\n" for a, v in e.attrs.items()))
    elif fmt == "properties":
        if alone():
            out.append(f"# {MARK} resource\n\n")
        for e in es:
            if c(e.comment):
                out.append(f"# {e.comment}\n")
            out.append(f"{e.id[0]} = {e.value}\n")
            if alone(0.1):
                out.append(f"\n! {MARK} standalone\n\n")
    elif fmt == "dtd":
        for e in es:
            if c(e.comment):
                out.append(f"<!-- {e.comment} -->\n")
            out.append(f"<!ENTITY {e.id[0]} \"{e.value}\">\n")
            if alone(0.1):
                out.append(f"\n<!-- {MARK} standalone -->\n\n")
    elif fmt == "inc":
        for e in es:
            if c(e.comment):
                out.append(f"# {e.comment}\n")
            out.append(f"#define {e.id[0]} {e.value}\n")
            if alone(0.1):
                out.append(f"\n# {MARK} standalone\n\n")
    elif fmt == "ini":
        sid = None
        for e in es:
            if e.sid != sid:
                if alone():
                    out.append(f"# {MARK} section\n")
                out.append(f"[{e.sid[0]}]\n")
                sid = e.sid
            if c(e.comment):
                out.append(f"; {e.comment}\n" if extra and rng.random() < 0.5 else f"# {e.comment}\n")
            out.append(f"{e.id[0]} = {e.value}\n")
    elif fmt == "gettext":
        if alone():
            out.append(f"# {MARK} translators\n")
        out.append('msgid ""\nmsgstr ""\n' + f'"Language: {lc}\\n"\n"Content-Type: text/plain; charset=UTF-8\\n"\n"Plural-Forms: nplurals=2; plural=(n != 1);\\n"\n\n')
        for e in es:
            p = "#~ " if e.obsolete else ""
            if c(e.comment) and not e.obsolete:
                out.append(f"#. {e.comment}\n")
                if extra and rng.random() < 0.5:
                    out.append(f"#: {MARK}.c:1\n")
            if alone(0.1) and not e.obsolete:
                out.append(f"# {MARK} own\n")
            if len(e.id) == 2:
                out.append(f"{p}msgctxt {q(e.id[1])}\n")
            out.append(f"{p}msgid {q(e.id[0])}\n")
            if e.kind == "plural":
                out.append(f'{p}msgid_plural {q(e.id[0] + "s")}\n{p}msgstr[0] {q(e.value)}\n{p}msgstr[1] {q(e.value + "s")}\n')
            else:
                out.append(f"{p}msgstr {q(e.value)}\n")
            out.append("\n")
    elif fmt == "plain_json":
        tree = {}
        for e in es:
            t = tree
            for k in e.id[:-1]:
                t = t.setdefault(k, {})
            t[e.id[-1]] = e.value
        out.append(json.dumps(tree, ensure_ascii=False, indent=2) + "\n")
    elif fmt == "webext":
        tree = {}
        for e in es:
            t = tree[e.id[0]] = {"message": e.value}
            if c(e.comment):
                t["description"] = e.comment
            if "$X$" in e.value:
                t["placeholders"] = {"X": {"content": "$1"}}
        out.append(json.dumps(tree, ensure_ascii=False, indent=2) + "\n")
    elif fmt == "android":
        out.append('<?xml version="1.0" encoding="utf-8"?>\n')
        if alone():
            out.append(f"<!-- {MARK} resource -->\n")
        out.append("<resources>\n")
        for e in es:
            if alone(0.1):
                out.append(f"  <!-- {MARK} standalone -->\n\n")
            if c(e.comment):
                out.append(f"  <!-- {e.comment} -->\n")
            v = escape(e.value, quote=False)
            if e.kind == "plural":
                out.append(f'  <plurals name="{e.id[0]}">\n    <item quantity="one">{v}</item>\n    <item quantity="other">{v}s</item>\n  </plurals>\n')
            elif e.kind == "array":
                out.append(f'  <string-array name="{e.id[0]}">\n    <item>{v}</item>\n    <item>{v}2</item>\n  </string-array>\n')
            else:
                out.append(f'  <string name="{e.id[0]}">{v}</string>\n')
        out.append("</resources>\n")
    elif fmt == "xliff":
        out.append('<?xml version="1.0" encoding="utf-8"?>\n<xliff xmlns="urn:oasis:names:tc:xliff:document:1.2" version="1.2">\n')
        if alone():
            out.append(f"<!-- {MARK} standalone -->\n")
        open_ = ()
        for e in [*es, None]:
            sid = e.sid if e else ()
            n = 0
            while n < len(open_) and n < len(sid) and open_[n] == sid[n]:
                n += 1
            while len(open_) > n:
                out.append("</group>\n" if len(open_) > 1 else "</body></file>\n")
                open_ = open_[:-1]
            while len(open_) < len(sid):
                s = sid[len(open_)]
                if not open_:
                    hl = heads.get(s, lc)
                    tl = f' target-language="{hl}"' if hl != "en" else ""
                    out.append(f'<file original="{s}" source-language="en" datatype="plaintext"{tl}><body>\n')
                else:
                    out.append(f'<group id="{s}">\n')
                open_ = (*open_, s)
            if e:
                note = f"<note>{escape(e.comment)}</note>" if c(e.comment) else ""
                v = escape(e.value, quote=False)
                tgt = f"<target>{v}</target>" if e.lc != "en" else ""
                src = "source of " + e.id[0] if e.lc != "en" else v
                out.append(f'<trans-unit id="{e.id[0]}"><source>{src}</source>{tgt}{note}</trans-unit>\n')
        out.append("</xliff>\n")
    return "".join(out)


def put(path, data):
    os.makedirs(dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def read(path):
    with open(path, "rb") as f:
        return f.read()


def snapshot(root):
    """Everything about the files below root that a program that only reads leaves alone."""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            out[join(d, n)] = "directory"
        for n in fs:
            p = join(d, n)
            st = os.stat(p)
            out[p] = (read(p), st.st_mtime_ns, st.st_ino, st.st_mode)
    return out


def changed(a, b):
    return sorted(p for p in {*a, *b} if a.get(p) != b.get(p))


class Log(logging.Handler):
    """What a command logs."""

    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelname, record.getMessage()))

    def __enter__(self):
        root = logging.getLogger()
        self.old, self.root_level = root.handlers[:], root.level
        root.handlers[:] = [self]
        root.setLevel(logging.DEBUG)
        return self

    def __exit__(self, *a):
        root = logging.getLogger()
        root.handlers[:] = self.old
        root.setLevel(self.root_level)
