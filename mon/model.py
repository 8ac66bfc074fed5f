"""Order- and type-strict views of the library's data model."""
from __future__ import annotations

from moz.l10n.model import (CatchallKey, Comment, Entry, Expression, LinePos, Markup, Metadata,
                            PatternMessage, Resource, Section, SelectMessage, VariableRef)


def canon(x, linepos=False, catchall=True):
    """A nested tuple that differs whenever any observable part differs, dict order included."""
    c = lambda y: canon(y, linepos, catchall)  # noqa: E731
    if x is None or isinstance(x, (str, int, bool, float)):
        return x
    if isinstance(x, VariableRef):
        return ("$", x.name)
    if isinstance(x, Expression):
        return ("expr", c(x.arg), x.function, c(x.options), c(x.attributes))
    if isinstance(x, Markup):
        return ("markup", x.kind, x.name, c(x.options), c(x.attributes))
    if isinstance(x, PatternMessage):
        return ("pm", c(x.declarations), c(x.pattern))
    if isinstance(x, SelectMessage):
        return ("sm", c(x.declarations), c(x.selectors), c(x.variants))
    if isinstance(x, CatchallKey):
        return ("*", x.value if catchall else None)
    if isinstance(x, Metadata):
        return ("meta", x.key, x.value)
    if isinstance(x, Comment):
        return ("comment", x.comment) + ((c(x.linepos),) if linepos else ())
    if isinstance(x, LinePos):
        return ("pos", x.start, x.key, x.value, x.end)
    if isinstance(x, Entry):
        return ("entry", c(x.id), c(x.value), c(x.properties), x.comment, c(x.meta)) + ((c(x.linepos),) if linepos else ())
    if isinstance(x, Section):
        return ("section", c(x.id), x.comment, c(x.meta), c(x.entries)) + ((c(x.linepos),) if linepos else ())
    if isinstance(x, Resource):
        return ("resource", x.format.name if x.format else None, x.comment, c(x.meta), c(x.sections))
    if isinstance(x, dict):
        return ("dict",) + tuple((c(k), c(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(c(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(map(repr, x)))
    if hasattr(x, "name") and hasattr(x, "value"):
        return ("enum", x.name)
    return ("other", type(x).__name__, repr(x))


def diff(a, b, path="") -> str | None:
    """First difference between two canon() values, readable."""
    if type(a) is not type(b):
        return f"{path}: {a!r:.300} != {b!r:.300}"
    if isinstance(a, tuple):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} != {len(b)}: {a!r:.500} != {b!r:.500}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}.{a[0] if i and isinstance(a[0], str) else ''}{i}")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r:.300} != {b!r:.300}"


def check_same(ctx, got, want, kind, msg="", **detail):
    """Strict equality of two model values (dict order included, line positions not)."""
    ctx.ev("model_comparisons")
    a, b = canon(got), canon(want)
    if a != b:
        ctx.fail(kind, f"{msg} {diff(a, b)}", got=repr(got), want=repr(want), **detail)


def norm(msg):
    """Text runs joined, empty text dropped; declarations kept.  Does not modify its argument."""
    if isinstance(msg, PatternMessage):
        return PatternMessage(norm_pattern(msg.pattern), dict(msg.declarations))
    if isinstance(msg, SelectMessage):
        return SelectMessage(dict(msg.declarations), msg.selectors, {k: norm_pattern(v) for k, v in msg.variants.items()})
    return msg


def norm_pattern(p):
    out = []
    for x in p:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return out


def flat(msg) -> str:
    """Text of a message that holds nothing but text."""
    if isinstance(msg, str):
        return msg
    assert isinstance(msg, PatternMessage) and all(isinstance(x, str) for x in msg.pattern), msg
    return "".join(msg.pattern)


def messages(res):
    """(section id, entry id, property or None, message) in order."""
    for s in res.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                yield s.id, e.id, None, e.value
                for k, v in e.properties.items():
                    yield s.id, e.id, k, v


def comments(res):
    if res.comment:
        yield "resource", res.comment
    for s in res.sections:
        if s.comment:
            yield "section", s.comment
        for e in s.entries:
            if e.comment:
                yield ("entry" if isinstance(e, Entry) else "standalone"), e.comment


def malformed(res):
    """What of a resource is not of the types that its classes declare."""
    bad = []

    def is_(x, types, where):
        if not isinstance(x, types) or (types is int and isinstance(x, bool)):
            bad.append(f"{where}: {x!r}")
            return False
        return True

    def meta(ms, where):
        if is_(ms, list, where):
            for m in ms:
                if is_(m, Metadata, where):
                    is_(m.key, str, where + " key")
                    is_(m.value, str, f"{where} {m.key}")

    def ident(x, where):
        if is_(x, tuple, where):
            for p in x:
                is_(p, str, where)

    def pos(x, where):
        if x is not None and is_(x, LinePos, where):
            for k in (x.start, x.key, x.value, x.end):
                is_(k, int, where)

    def attrs(x, where, values):
        if is_(x, dict, where):
            for k, v in x.items():
                is_(k, str, where)
                if not (v is True and values == "attr"):
                    is_(v, str if values == "attr" else (str, VariableRef), f"{where} {k}")

    def part(x, where):
        if isinstance(x, Expression):
            if x.arg is not None:
                is_(x.arg, (str, VariableRef), where)
            if isinstance(x.arg, VariableRef):
                is_(x.arg.name, str, where)
            if x.function is not None:
                is_(x.function, str, where)
        elif isinstance(x, Markup):
            if x.kind not in ("open", "standalone", "close"):
                bad.append(f"{where}: {x.kind!r}")
            is_(x.name, str, where)
        else:
            is_(x, str, where)
            return
        attrs(x.options, where + " options", "opt")
        attrs(x.attributes, where + " attributes", "attr")

    def msg(x, where):
        if not is_(x, (PatternMessage, SelectMessage), where):
            return
        if is_(x.declarations, dict, where):
            for k, v in x.declarations.items():
                is_(k, str, where)
                is_(v, Expression, where) and part(v, where)
        if isinstance(x, PatternMessage):
            is_(x.pattern, list, where) and [part(p, where) for p in x.pattern]
            return
        is_(x.selectors, tuple, where)
        for s in x.selectors:
            is_(s, VariableRef, where)
            if s.name not in x.declarations:
                bad.append(f"{where}: selector {s.name!r} is not declared")
        for keys, pattern in x.variants.items():
            is_(keys, tuple, where)
            if len(keys) != len(x.selectors):
                bad.append(f"{where}: keys {keys} for {len(x.selectors)} selectors")
            for k in keys:
                is_(k, (str, CatchallKey), where)
            is_(pattern, list, where) and [part(p, where) for p in pattern]

    is_(res.comment, str, "resource comment")
    meta(res.meta, "resource meta")
    is_(res.sections, list, "sections")
    for s in res.sections:
        ident(s.id, "section id")
        is_(s.comment, str, "section comment")
        meta(s.meta, f"section {s.id} meta")
        pos(s.linepos, f"section {s.id} linepos")
        for e in s.entries:
            if isinstance(e, Comment):
                is_(e.comment, str, "comment")
                pos(e.linepos, "comment linepos")
            elif is_(e, Entry, "entry"):
                w = f"{s.id}{e.id}"
                ident(e.id, w)
                if not e.id:
                    bad.append(f"{w}: empty id")
                is_(e.comment, str, w + " comment")
                meta(e.meta, w + " meta")
                pos(e.linepos, w + " linepos")
                msg(e.value, w)
                if is_(e.properties, dict, w):
                    for k, v in e.properties.items():
                        is_(k, str, w)
                        msg(v, f"{w}.{k}")
    return bad
