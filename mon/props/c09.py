"""DTD, .inc and .ini files against generated contents and independent readers."""
from __future__ import annotations

import configparser
import re

from moz.l10n.formats import Format
from moz.l10n.formats.dtd.parse import dtd_parse
from moz.l10n.formats.dtd.serialize import dtd_serialize
from moz.l10n.formats.inc.parse import inc_parse
from moz.l10n.formats.inc.serialize import inc_serialize
from moz.l10n.formats.ini.parse import ini_parse
from moz.l10n.formats.ini.serialize import ini_serialize
from moz.l10n.model import Comment, Entry, Metadata, PatternMessage, Resource, Section

from .. import gen
from .. import simple as S
from ..core import Family
from ..model import canon, flat

RULE = "distinct by source or output text; seeded random files and resources"
ASSUMPTIONS = ["white space inside comments is layout; '--' in DTD comments is not generated",
               "DTD values are kept as written between the quotes: character and entity references are not resolved",
               "inline comments in .ini files follow ConfigParser: ';' after white space in the first line of a value",
               "the first standalone comment of a DTD is its resource comment, and a commented-out DTD entity stays standalone",
               "section and multi-part identifiers come back joined with '.', as documented"]
sq = S.sq


def differ(ctx, kind, got, want, **detail):
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        ctx.fail(kind, f"item {i}: {got[i:i + 1]!r} instead of {want[i:i + 1]!r}", **detail)


def round(ctx, fmt, res, parse, serialize, read):
    before = canon(res)
    out = "".join(serialize(res))
    ctx.check(canon(res) == before, "mutated", "serializing changed the resource", out=out)
    differ(ctx, f"{fmt}-output", read(out), S.view(res), res=res, out=out)
    ctx.ev("outputs_read")
    back = parse(out)
    differ(ctx, f"{fmt}-reparse", S.view(back), S.view(res), res=res, out=out)
    return out, back


def read_dtd(out):
    metas, items = S.dtd_read(out)
    top = [items.pop(0)] if items and items[0][0] == "c" and not re.match(r"<!ENTITY", items[0][1]) else []
    return top + metas + items


def fam_dtd(ctx):
    rng = ctx.rng
    strict = rng.random() < 0.5
    src, want = S.dtd_file(rng, strict)
    ctx.case(src)
    res = dtd_parse(src.encode() if rng.random() < 0.5 else src)
    ctx.ev("dtd_entries", sum(x[0] == "e" for x in want))
    ctx.ev("dtd_comments", sum(x[0] == "c" or bool(x[0] == "e" and x[3]) for x in want))
    ctx.ev("dtd_includes", sum(x[0] == "m" for x in want))
    differ(ctx, "dtd-parse", S.view(res), want, src=src)
    ctx.check(res.format == Format.dtd and len(res.sections) == 1 and res.sections[0].id == (), "dtd-shape", "", src=src)
    out, _ = round(ctx, "dtd", res, dtd_parse, dtd_serialize, read_dtd)
    if strict:
        x = lambda v: v.replace("\r\n", "\n")  # noqa: E731
        for text in (src, out):
            got, incl = S.dtd_expat(text)
            ctx.ev("expat_entities", len(got))
            ctx.check(list(got.items()) == [(k, x(v)) for t, k, v, _ in (w for w in want if w[0] == "e")], "dtd-expat", "", src=src, out=out, entities=got)
            ctx.check(incl == [w[1:] for w in want if w[0] == "m"], "dtd-expat-includes", "", src=src, out=out, includes=incl)


def fam_inc(ctx):
    rng = ctx.rng
    src, want = S.inc_file(rng)
    ctx.case(src)
    res = inc_parse(src.encode() if rng.random() < 0.5 else src)
    ctx.ev("inc_entries", sum(x[0] == "e" for x in want))
    ctx.ev("inc_comments", sum(x[0] == "c" or bool(x[0] == "e" and x[3]) for x in want))
    differ(ctx, "inc-parse", S.view(res), want, src=src)
    round(ctx, "inc", res, inc_parse, inc_serialize, S.inc_read)


def with_configparser(text):
    p = configparser.RawConfigParser(comment_prefixes=("#",), delimiters=("=",), strict=True, default_section="\0")
    p.optionxform = str
    p.read_string(text)
    return [(s, k, v) for s in p.sections() for k, v in p.items(s)]


def fam_ini(ctx):
    rng = ctx.rng
    src, want = S.ini_file(rng)
    ctx.case(src)
    res = ini_parse(src.encode() if rng.random() < 0.5 else src)
    ctx.ev("ini_entries", sum(x[0] == "e" for x in want))
    ctx.ev("ini_multiline", sum(x[0] == "e" and "\n" in x[2] for x in want))
    ctx.ev("ini_comments", sum(x[0] == "c" or bool(x[-1]) for x in want if x[0] != "m"))
    differ(ctx, "ini-parse", S.view(res), want, src=src)
    out, _ = round(ctx, "ini", res, ini_parse, ini_serialize, S.ini_read)
    sect, pairs = None, []
    for x in want:
        if x[0] == "s":
            sect = x[1]
        elif x[0] == "e":
            pairs.append((sect, x[1], x[2]))
    names = [x[1] for x in want if x[0] == "s"]
    # configparser splits lines as str.splitlines() does, and refuses duplicates
    if len({p[:2] for p in pairs}) == len(pairs) and len(set(names)) == len(names) and not re.search("[\x0b\x0c\x1c-\x1e\x85\u2028\u2029]|\n\\s+#", out):
        ctx.ev("configparser_reads")
        ctx.check(with_configparser(out) == pairs, "ini-configparser", "", src=src, out=out)


# ------------------------------------------------------------------ from the data model

ODD = ["", " ", "\n", "\r", "\r\n", "\t", "\x0b", "\u2028", "\x85", "#", ";", " ;", "[", "]", "=", ":", "%", "<!-- ", "<! -- ", "-->", "<!", "--", ">", "&", "\\", "rem", "#define x y", "\n#define x y", "\n[s]", "\nk=v", "é"]


def m_value(rng, q=""):
    v = "".join(gen.plain(rng, 1) if rng.random() < 0.5 else rng.choice(ODD + list(q)) for _ in range(rng.choice([0, 1, 1, 2, 3, 4])))
    return v


def as_value(rng, v):
    if rng.random() < 0.2:
        return v
    i = rng.randint(0, len(v))
    return PatternMessage(rng.choice([[v], [v[:i], v[i:]], [v] if v else []]))


def m_comment(rng):
    if rng.random() < 0.5:
        return ""
    return S.ctext(rng, rng.choice(["\n", "\n\n"]))


def m_resource(rng, fmt, ident, value):
    sections = []
    for i in range(rng.choice([1, 1, 1, 2])):
        entries = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            if rng.random() < 0.2:
                entries.append(Comment(m_comment(rng) or "c"))
            else:
                entries.append(Entry(ident(), as_value(rng, value()), comment=m_comment(rng)))
        sid = () if fmt == "inc" or (fmt == "dtd" and rng.random() < 0.7) else (S.ini_name(rng, True),) if fmt == "ini" else ident()
        sections.append(Section(sid, entries, m_comment(rng)))
    return Resource(Format[fmt], sections, m_comment(rng))


def expected(res, fmt):
    """What a reader of the format should see of a resource."""
    out = []
    for x in [("c", res.comment)] if res.comment else []:
        out.append(("c", sq(x[1])))
    out += [("m", m.key, m.value) for m in res.meta]
    for s in res.sections:
        if fmt == "ini":
            out.append(("s", ".".join(s.id), sq(s.comment)))
        elif s.comment:
            out.append(("c", sq(s.comment)))
        for e in s.entries:
            if isinstance(e, Entry):
                k = ".".join((s.id if fmt == "dtd" else ()) + e.id)
                out.append(("e", k, e.value if isinstance(e.value, str) else flat(e.value), sq(e.comment)))
            else:
                out.append(("c", sq(e.comment)))
    return out


OK_NAME = {"dtd": r"[A-Za-z_:é][\w:.\-·é]*", "inc": r"\w+", "ini": r"(?![rR][eE][mM](\s|$))[A-Za-z_é$][^\s:=\[\]]*"}


def ok_value(fmt, v):
    if fmt == "dtd":
        return not re.search(r"<!\s*--", v) and not ('"' in v and "'" in v)
    if fmt == "inc":
        return not re.search(r"[\r\n]", v)
    return all(x == x.strip() for x in v.split("\n")) and v == v.strip() and not re.search(r"^[^;\n]*\s;", v)


def fam_model(ctx):
    """Any resource: either refused, or read back as it was."""
    rng = ctx.rng
    fmt = ("dtd", "inc", "ini")[ctx.index % 3]
    parse, serialize, read = {"dtd": (dtd_parse, dtd_serialize, read_dtd), "inc": (inc_parse, inc_serialize, S.inc_read), "ini": (ini_parse, ini_serialize, S.ini_read)}[fmt]
    name = {"dtd": S.dtd_name, "inc": S.inc_name, "ini": S.ini_name}[fmt]

    hostile = rng.random() < 0.6

    def ident():
        n = name(rng)
        r = rng.random()
        if hostile and r < 0.06:
            n = rng.choice(["", "#a", ";a", "rem x", "REM", "a b", "a=b", "a:b", "[a]", "a\nb", " a", "a ", "é", "9", "-a", "%a", "a%", "a;b", "a\"b", "a>", "a/b", "a-b", "a\u2028", "\u2028a", "a\u00a0"])
        return (n,) if fmt == "inc" or r < 0.8 else (n, gen.ident(rng))

    def value():
        if hostile:
            v = m_value(rng, "'\"")
        else:
            v = S.dtd_value(rng) if fmt == "dtd" else S.inc_value(rng) if fmt == "inc" else S.ini_value(rng)
            if fmt == "dtd" and '"' in v:
                v = v.replace("'", "")
        # values that are altered on purpose: see the known findings
        if fmt == "dtd":
            if '"' in v:
                v = v.replace("'", "")
            v = re.sub(r"<!\s*--.*?--\s*>", "", v, flags=re.S)
        if fmt == "inc":
            v = re.sub(r"[\r\n]", "", v)
        if fmt == "ini":
            v = "\n".join(x.strip() for x in v.strip().split("\n"))
        return v

    res = m_resource(rng, fmt, ident, value)
    if fmt == "dtd" and rng.random() < 0.3:
        res.meta = [Metadata(k, "chrome://x/" + gen.word(rng)) for k in gen.uniq(rng, lambda: S.dtd_name(rng), rng.randint(1, 3))]
        if hostile and rng.random() < 0.1:
            res.meta[0].key = rng.choice(["", "a b", "a>b", "%"])
    ctx.case(repr(res))
    before = canon(res)
    try:
        out = "".join(serialize(res))
    except ValueError as e:
        ctx.ev(f"refused_{fmt}")
        ids = [(s.id if fmt != "ini" else ()) + e.id for s in res.sections for e in s.entries if isinstance(e, Entry)]
        bad = [i for i in ids if not re.fullmatch(OK_NAME[fmt], ".".join(i))] + [m.key for m in res.meta if not re.fullmatch(OK_NAME[fmt], m.key)]
        bad += [e.value for e in res.all_entries() if not ok_value(fmt, e.value if isinstance(e.value, str) else flat(e.value))]
        ctx.check(bool(bad), f"{fmt}-refused", f"{e}", res=res)
        return
    ctx.ev(f"written_{fmt}")
    ctx.check(canon(res) == before, "mutated", "serializing changed the resource", out=out)
    want = expected(res, fmt)
    if fmt == "dtd" and not res.comment:
        # the first standalone comment reads back as the resource comment
        i = next((i for i, x in enumerate(want) if x[0] != "m"), None)
        if i is not None and want[i][0] == "c":
            want.insert(0, want.pop(i))
    try:
        got = read(out)
    except ValueError as e:
        ctx.fail(f"{fmt}-model-output", f"unreadable: {e}", res=res, out=out)
    differ(ctx, f"{fmt}-model-output", got, want, res=res, out=out)
    try:
        back = parse(out)
    except Exception as e:
        ctx.fail(f"{fmt}-model-reparse", f"unparseable: {e}", res=res, out=out)
    differ(ctx, f"{fmt}-model-reparse", S.view(back), want, res=res, out=out)


BAD = [
    (dtd_parse, '<!ENTITY a "b">\nx'), (dtd_parse, "<!ENTITY a>"), (dtd_parse, "<!ENTITY a 'b\" >"), (dtd_parse, "junk <!ENTITY a 'b'>"), (dtd_parse, "<!ENTITY 1a 'b'>"), (dtd_parse, "%x;"),
    (dtd_parse, "<!ENTITY % x SYSTEM 'y'> %z;"), (dtd_parse, "<!ENTITY % x SYSTEM 'y'>"), (dtd_parse, "<!ENTITY a 'b'> c <!-- d -->"), (dtd_parse, "<!ENTITY a b>"),
    (inc_parse, "a b"), (inc_parse, "#define a b\n c"), (inc_parse, " #define a b"), (inc_parse, "# c\n\tx\n"), (inc_parse, "define a b"),
    (ini_parse, "a=b"), (ini_parse, "[s]\nx"), (ini_parse, "[s\na=b"), (ini_parse, "[s]\n=b"), (ini_parse, "[]\na=b"), (ini_parse, "[s]\n  a"), (ini_parse, "[s]x\na=b"),
]


def fam_bad(ctx):
    parse, src = BAD[ctx.index]
    ctx.case(src)
    ctx.ev("bad_files")
    try:
        res = parse(src)
    except Exception:
        return
    ctx.fail("misread", "accepted", src=src, res=res)


def fam_known(ctx):
    fmt, val, key = [("dtd", "a\"b'c", "dtd-both-quotes"), ("dtd", "a<!-- b -->c", "dtd-comment-in-value"), ("inc", "a\nb", "inc-newline"), ("ini", " a\n  b ", "ini-white-space")][ctx.index]
    parse, serialize = {"dtd": (dtd_parse, dtd_serialize), "inc": (inc_parse, inc_serialize), "ini": (ini_parse, ini_serialize)}[fmt]
    ctx.case(key)
    try:
        out = "".join(serialize(Resource(Format[fmt], [Section(("s",) if fmt == "ini" else (), [Entry(("k",), PatternMessage([val]))])])))
    except ValueError:
        return
    if flat(parse(out).sections[0].entries[0].value) != val:
        ctx.fail(key, "", value=val, out=out)


FAMILIES = [
    Family("dtd", fam_dtd, 3000, 120000, need=["dtd_entries", "dtd_comments", "dtd_includes", "expat_entities", "outputs_read"]),
    Family("inc", fam_inc, 3000, 120000, need=["inc_entries", "inc_comments", "outputs_read"]),
    Family("ini", fam_ini, 3000, 120000, need=["ini_entries", "ini_multiline", "ini_comments", "configparser_reads"]),
    Family("model", fam_model, 6000, 240000, need=["written_dtd", "written_inc", "written_ini", "refused_dtd", "refused_inc", "refused_ini"]),
    Family("bad", fam_bad, len(BAD), len(BAD), need=["bad_files"]),
    Family("known", fam_known, 4, 4),
]
