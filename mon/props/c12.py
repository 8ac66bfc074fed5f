"""Serialize with and without comments: the comments are gone, and nothing else."""
from __future__ import annotations

import json
import re
from copy import deepcopy

from lxml import etree

from moz.l10n.formats import Format
from moz.l10n.model import Comment, Entry, Metadata
from moz.l10n.resource import parse_resource, serialize_resource

from .. import files, javaprops
from ..core import Family, Skip
from ..model import canon, comments, diff
from .c11 import msg

RULE = "distinct by source text and placement of comments; seeded random files of each format"
ASSUMPTIONS = ["in gettext files, flags, references, previous messages and obsolete messages are comments, as the format has it and the repository's tests show",
               "in XLIFF files, notes are comments, while XML comments inside a unit are a part of its contents, as the repository's tests show; in WebExtension files, descriptions and placeholder examples are comments",
               "the empty # line that starts a PO file and the blank lines left in .inc files hold no comment"]
WORD = re.compile(r"QZ\d+ZQ")


def no_comments(ctx, fmt, out, **detail):
    """Raw scan, independent of the library's parsers."""
    ctx.ev("raw_scans")
    m = WORD.search(out)
    ctx.check(m is None, f"{fmt}-leak", f"{m and m[0]}: {m and out[max(0, m.start() - 60):m.end() + 20]!r}", out=out, **detail)
    if fmt in ("android", "xliff"):
        root = etree.fromstring(out.encode())
        left = [c for c in root.getroottree().iter(etree.Comment)] + list(root.itersiblings(etree.Comment, preceding=True))
        if fmt == "xliff":
            # comments inside the element of a unit or header are kept with its other contents, as the repository's tests show
            left = [c for c in left if c.getparent() is None or etree.QName(c.getparent()).localname in ("xliff", "file", "body", "group")]
            left += [n for n in root.iter("{*}note")]
        ctx.check(not left, f"{fmt}-comment-left", f"{[etree.tostring(x, with_tail=False) for x in left]}", out=out, **detail)
        return
    if fmt in ("plain_json", "webext"):
        data = json.loads(out)
        if fmt == "webext":
            left = [k for k, v in data.items() if "description" in v or any("example" in p for p in v.get("placeholders", {}).values())]
            ctx.check(not left, f"{fmt}-comment-left", f"{left}", out=out, **detail)
        return
    lines = out.split("\n")
    if fmt == "properties":
        left = [x for x in javaprops.read(out) if x[0] == "comment"]
    elif fmt == "dtd":
        left = re.findall(r"<!--.*?-->", out, re.S)
    elif fmt == "fluent":
        left = [x for x in lines if x.startswith("#")]
    elif fmt == "gettext":
        left = [x for x in lines[1:] if x.startswith("#")] + ([lines[0]] if lines[0] != "#" else [])
    elif fmt == "inc":
        left = [x for x in lines if x.strip() == "#" or x.startswith("# ")]  # other # lines are preprocessor directives
    elif fmt == "ini":
        left = [x for x in lines if x.startswith(("#", ";"))]
    ctx.check(not left, f"{fmt}-comment-left", f"{left}", out=out, **detail)


def contents(fmt, res):
    out = [("meta", sorted((m.key, m.value) for m in res.meta if not (fmt == "fluent")))]
    for s in res.sections:
        meta = [(m.key, m.value) for m in s.meta if not note(fmt, m)]
        for e in s.entries:
            if isinstance(e, Entry) and not (fmt == "gettext" and any(m.key == "obsolete" for m in e.meta)):
                em = [(m.key, m.value) for m in e.meta if m.key == "plural"] if fmt == "gettext" else [(m.key, m.value) for m in e.meta if not note(fmt, m)] if fmt != "fluent" else []
                out.append((s.id, sorted(meta), e.id, example(fmt, msg(e.value)), sorted((k, msg(v)) for k, v in e.properties.items()), sorted(em)))
    return out


def note(fmt, m):
    return fmt == "xliff" and (re.search(r"(^|/)note(\[\d+\])?(/|$)", m.key) or m.key.endswith("comment()") or m.value == "" or m.value.isspace())


def example(fmt, x):
    if fmt == "webext" and isinstance(x, tuple):
        return tuple(example(fmt, y) for y in x if not (isinstance(y, tuple) and len(y) == 2 and y[0] == "example"))
    return x


def decorate(ctx, fmt, res):
    """Comments with unique words at all levels, in addition to those that there are."""
    rng = ctx.rng
    n = 0

    def word():
        nonlocal n
        n += 1
        return f"QZ{n}ZQ" + rng.choice(["", "", " x", "\nmore", "\n\nlast", " - - "])

    if rng.random() < 0.7:
        res.comment = f"{res.comment}\n{word()}" if res.comment else word()
    for s in res.sections:
        if fmt != "gettext" and rng.random() < 0.5 and s.id != ("!ENTITY",):
            s.comment = f"{s.comment}\n{word()}" if s.comment else word()
        for i in range(len(s.entries), -1, -1):
            if i < len(s.entries) and isinstance(e := s.entries[i], Comment):
                e.comment = f"{e.comment}\n{word()}"
            elif i < len(s.entries) and rng.random() < 0.5:
                e.comment = f"{e.comment}\n{word()}" if e.comment else word()
            if fmt != "gettext" and rng.random() < 0.2:
                s.entries.insert(i, Comment(word()))
            if fmt == "gettext" and i < len(s.entries) and rng.random() < 0.3:
                s.entries[i].meta.append(Metadata(rng.choice(["translator-comments", "reference", "flag", "previous-id"]), f"QZ{n}ZQ"))
    ctx.ev("markers", n)


def stripped(res):
    res = deepcopy(res)
    res.comment = ""
    for s in res.sections:
        s.comment = ""
        s.entries = [e for e in s.entries if isinstance(e, Entry)]
        for e in s.entries:
            e.comment = ""
    return res


def fam_trim(ctx):
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    src = files.source(rng, fmt)
    res = parse_resource(Format[fmt], src)
    for kind, _ in comments(res):
        ctx.ev(f"{kind}_comments")
    with_comments = "".join(serialize_resource(res))
    trimmed = "".join(serialize_resource(res, trim_comments=True))
    ctx.case(src)
    no_comments(ctx, fmt, trimmed, src=src)
    want, got = contents(fmt, parse_resource(Format[fmt], with_comments)), contents(fmt, parse_resource(Format[fmt], trimmed))
    i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None)
    ctx.check(got == want, f"{fmt}-contents", f"{len(got)} {len(want)} {i}: {diff(got[i], want[i]) if i is not None else ''}", src=src, out=trimmed, untrimmed=with_comments)
    back = parse_resource(Format[fmt], trimmed)
    left = [(k, c) for k, c in comments(back) if fmt != "inc" or not all(x.startswith("#") for x in c.split("\n"))]
    ctx.check(not left, f"{fmt}-comment-parsed", f"{left}", src=src, out=trimmed)
    ctx.ev(f"{fmt}_files")
    # unique words at all levels
    deco = deepcopy(res)
    decorate(ctx, fmt, deco)
    before = canon(deco)
    out = "".join(serialize_resource(deco, trim_comments=True))
    ctx.check(canon(deco) == before, f"{fmt}-mutated", "", src=src)
    no_comments(ctx, fmt, out, src=src, res=repr(deco))
    bare = "".join(serialize_resource(stripped(res), trim_comments=True))
    a, b = (contents(fmt, parse_resource(Format.inc, x)) if fmt == "inc" else x for x in (out, bare))
    ctx.check(a == b, f"{fmt}-not-same", "the output depends on trimmed comments", src=src, out=out, want=bare)


FAMILIES = [
    Family("trim", fam_trim, 4000, 100000, need=[f"{f}_files" for f in files.FORMATS] + ["resource_comments", "section_comments", "entry_comments", "standalone_comments", "markers"]),
]
