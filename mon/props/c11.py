"""Parse and serialize again and again: the second text is the same as the first."""
from __future__ import annotations

import re

from moz.l10n.formats import Format
from moz.l10n.model import Entry
from moz.l10n.resource import parse_resource, serialize_resource

from .. import files
from ..core import Family, Skip
from ..model import canon, malformed, norm
from .c28 import attached_resource

RULE = "distinct by source text; seeded random files of each format, whole and damaged"
ASSUMPTIONS = ["files that the parser refuses, or whose contents the serializer refuses to write, are out of scope here"]


def contents(res):
    """Identifiers and values in order; attributes are written in alphabetical order, and empty text is no text."""
    out = []
    for s in res.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                out.append((s.id, e.id, msg(e.value), sorted((k, msg(v)) for k, v in e.properties.items())))
    return out


def msg(m):
    """Canonical form of a message; options are named, not ordered."""
    def fix(x):
        if isinstance(x, tuple):
            if x[:1] == ("dict",) and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) for y in x[1:]):
                return ("dict", *sorted(map(fix, x[1:])))
            return tuple(map(fix, x))
        return x

    return selectors(fix(text(canon(norm(m)))))


def selectors(m):
    """Files do not tell plural from string selectors apart, or hold the empty forms at the end of a plural."""
    if m[0] == "sm":
        decl = tuple(d if d == "dict" else (d[0], ("expr", d[1][1], "string", *d[1][3:])) if d[1][2] == "number" else d for d in m[1])
        variants = tuple(v for v in m[3] if v == "dict" or v[1] != ("list",))
        return (m[0], decl, m[2], tuple(v if v == "dict" else (tuple(k[1] if isinstance(k, tuple) else k for k in v[0]), v[1]) for v in variants))
    return m


def text(x):
    """A quoted literal placeholder is the same content as text."""
    if not isinstance(x, tuple):
        return x
    x = tuple(map(text, x))
    if x[:1] == ("list",):
        out = ["list"]
        for p in x[1:]:
            if isinstance(p, tuple) and len(p) == 5 and p[0] == "expr" and isinstance(p[1], str) and p[2:] == (None, ("dict",), ("dict",)):
                p = p[1]
            if isinstance(p, str) and len(out) > 1 and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        return tuple(out)
    return x


def unordered(c):
    def msg(m):
        return m if m[0] != "sm" else (*m[:3], set(m[3][1:]))
    return [(s, i, msg(m), [(k, msg(v)) for k, v in props]) for s, i, m, props in c]


def cycle(ctx, fmt, res, **detail):
    """serialize -> parse -> serialize -> parse -> serialize"""
    ctx.eq(malformed(res), [], f"{fmt}-types", "parts of a parsed resource that are not of their declared types", **detail)
    ctx.ev("typed")
    s1 = "".join(serialize_resource(res))
    try:
        r1 = parse_resource(Format[fmt], s1)
    except Exception as e:
        ctx.fail(f"{fmt}-output-unparseable", f"{type(e).__name__}: {e}", out=s1, **detail)
    ctx.ev(f"{fmt}_cycles")
    c0, c1 = contents(res), contents(r1)
    ctx.ev("messages", len(c0))
    if fmt == "android" and c0 != c1 and re.search(r"'[^']*%[^']*[a-zA-Z][^']*'", str(c0)) and "damaged" in detail:
        raise Skip()  # a literal text that looks like a placeholder, made up of escapes
    if "\n#~|" in s1 or re.search(r"nplurals=\d\d", s1):
        raise Skip()  # known findings of C08: previous fields of obsolete entries, ten or more plurals
    if fmt == "fluent" and c0 != c1 and unordered(c0) == unordered(c1):
        s2 = "".join(serialize_resource(r1))
        s3 = "".join(serialize_resource(parse_resource(Format[fmt], s2)))
        several = any(len(m[2]) > 2 for _, _, m, ps in c0 for m in [m, *(p for _, p in ps)] if m[0] == "sm")
        ctx.fail("fluent-variant-order" if s2 == s3 and several else "fluent-reordered", "", out=s1, second=s2, third=s3, **detail)
    i = next((i for i, (a, b) in enumerate(zip(c0, c1)) if a != b), None)
    ctx.check(c0 == c1, f"{fmt}-contents", f"differ at {i}: {c0[i] if i is not None else c0[len(c1):]} -> {c1[i] if i is not None else c1[len(c0):]}", out=s1, **detail)
    s2 = "".join(serialize_resource(r1))
    ctx.check(s1 == s2, f"{fmt}-unstable", "the second text differs from the first", first=s1, second=s2, **detail)
    r2 = parse_resource(Format[fmt], s2)
    ctx.check(canon(r1) == canon(r2), f"{fmt}-parse-unstable", "", out=s2, **detail)
    return s1


def kwargs(rng, fmt):
    if rng.random() < 0.85:
        return {}
    return {"android": [dict(android_ascii_spaces=True), dict(android_literal_quotes=True)], "gettext": [dict(gettext_skip_obsolete=True)],
            "properties": [dict(properties_printf_placeholders=True)], "xliff": [dict(xliff_source_entries=True)]}.get(fmt, [{}])[0]


def fam_file(ctx):
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    src = files.source(rng, fmt)
    ctx.case(src)
    kw = kwargs(rng, fmt)
    res = parse_resource(Format[fmt], src.encode() if rng.random() < 0.5 or src.startswith("<?") else src, **kw)
    if kw:
        # options change what is read, so both readings use the same ones
        skw = kw if fmt == "xliff" else {}
        s1 = "".join(serialize_resource(res, **skw))
        r1 = parse_resource(Format[fmt], s1, **kw)
        s2 = "".join(serialize_resource(r1, **skw))
        ctx.ev("with_options")
        ctx.check(s1 == s2, f"{fmt}-unstable-options", str(kw), src=src, first=s1, second=s2)
        return
    cycle(ctx, fmt, res, src=src)


def damage(rng, src):
    """Cut, repeat, move or replace a few pieces of a text."""
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if not src:
            break
        i = rng.randrange(len(src))
        j = min(len(src), i + rng.choice([1, 1, 2, 5, 20]))
        if r < 0.25:
            src = src[:i] + src[j:]
        elif r < 0.45:
            src = src[:j] + src[i:j] + src[j:]
        elif r < 0.7:
            src = src[:i] + rng.choice(["\n", "\n\n", " ", "\t", "#", "\\", "\"", "'", "=", ":", ";", "{", "}", "<", ">", "&", "%", "$", "[", "]", "--", "---", "é", "\u2028", "\r\n", "\r", "~", "|", "1", "#~ ", "## ", "<b/>", "\u00a0", "\f"]) + src[i:]
        else:
            lines = src.split("\n")
            a, b = rng.randrange(len(lines)), rng.randrange(len(lines))
            if r < 0.8:
                lines[a], lines[b] = lines[b], lines[a]
            elif r < 0.9:
                lines.insert(b, lines[a])
            else:
                del lines[a]
            src = "\n".join(lines)
    return src


def fam_damaged(ctx):
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    src = damage(rng, files.source(rng, fmt, True))
    if fmt in ("fluent", "gettext"):
        src = re.sub("#~\\|", "#~ #|", src)
        if fmt == "gettext":
            src = re.sub("[\x0b\x0c\r\x1c-\x1e\x85\u2028\u2029]", "?", src)  # known finding of C08
    ctx.case(src)
    try:
        res = parse_resource(Format[fmt], src.encode() if src.startswith("<?") else src)
    except Exception:
        ctx.ev("refused_files")
        return
    try:
        "".join(serialize_resource(res))
    except Exception:
        ctx.ev("refused_contents")
        return
    ctx.ev("accepted_damaged")
    cycle(ctx, fmt, res, src=src, damaged=True)


def fam_attached(ctx):
    """Files with hostile comments and metadata."""
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    try:
        src = "".join(serialize_resource(attached_resource(rng, fmt)[0]))
    except Exception:
        raise Skip()
    if fmt == "gettext":
        src = re.sub("[\x0b\x0c\r\x1c-\x1e\x85\u2028\u2029]", "?", src)  # known finding of C08
    ctx.case(src)
    cycle(ctx, fmt, parse_resource(Format[fmt], src), src=src)
    ctx.ev("attached_" + fmt)


def fam_known(ctx):
    """Recorded defects: reported as long as they are there."""
    src = """a = { FOO($c) ->
        [two] W
       *[b] { $x ->
            [b] B
           *[other] O
        }
    }{ $x ->
        [1] 1
        [a] A
       *[other] S
    }
"""
    cycle(ctx, "fluent", parse_resource(Format.fluent, src), src=src)


FAMILIES = [
    Family("known", fam_known, 1, 1),
    Family("file", fam_file, 4000, 120000, need=[f"{f}_cycles" for f in files.FORMATS] + ["messages", "with_options"]),
    Family("attached", fam_attached, 6000, 200000, need=["attached_" + f for f in files.FORMATS]),
    Family("damaged", fam_damaged, 6000, 200000, need=["accepted_damaged", "refused_files"]),
]
