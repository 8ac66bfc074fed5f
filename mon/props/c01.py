from __future__ import annotations

from moz.l10n.formats import Format
from moz.l10n.formats.properties import (properties_parse, properties_parse_message, properties_serialize,
                                         properties_serialize_message)
from moz.l10n.model import Comment, Entry, PatternMessage, Resource, Section
from moz.l10n.resource import parse_resource, serialize_resource

from .. import gen, javaprops
from .. import printf
from ..core import Family, Skip
from ..model import canon, check_same, comments, flat

RULE = ("Texts built from known pairs/comments with random separators, escapes, continuations and line ends; raw texts over a "
        "syntax-dense alphabet; resources with hostile keys/values. Distinct by full text; non-trivial if at least one pair is present.")
ASSUMPTIONS = ["Java's malformed \\uXXXX and a lone backslash at the end of the file are outside the domain",
               "characters are Unicode scalar values (no lone surrogates)"]


def library_items(res):
    """The parsed resource as a flat list comparable with the reference."""
    out = []
    for s in res.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                out.append(("pair", ".".join(s.id + e.id), flat(e.value), e.comment))
            else:
                out.append(("comment", e.comment))
    return res.comment, out


def expected_items(items):
    """Comment attachment: directly preceding comment lines belong to the entry; a comment block followed by
    a blank line or the end of file is standalone, the first of which is the resource comment if no entry precedes."""
    out, buf, rc = [], [], ""

    def flush():
        nonlocal buf, rc
        text = "\n".join(buf).lstrip("\n")
        if text.strip():
            if out or rc:
                out.append(("comment", text))
            else:
                rc = text
        buf = []
    for it in items:
        if it[0] == "comment":
            buf.append(it[1])
        elif it[0] == "blank":
            flush()
        else:
            text = "\n".join(buf).lstrip("\n")
            out.append(("pair", it[1], it[2], text if text.strip() else ""))
            buf = []
    flush()
    return rc, out


def compare_with_reference(ctx, src, res):
    items = javaprops.read(src)
    flags = set().union(*[x[5] for x in items if x[0] == "pair"])
    if "eof-backslash" in flags or "eof-continuation" in flags:
        raise Skip()
    kind = "key-continuation" if "key-continuation" in flags else "parse-differs-from-java"
    got, want = library_items(res), expected_items(items)
    n = sum(x[0] == "pair" for x in items)
    ctx.ev("pairs_compared", n)
    ctx.ev("comments_compared", sum(x[0] == "comment" for x in items))
    ctx.check([x[1:3] for x in got[1] if x[0] == "pair"] == [x[1:3] for x in want[1] if x[0] == "pair"], kind,
              "pairs differ", src=src, got=got, want=want)
    if kind != "key-continuation":
        ctx.check(got == want, "comments-differ", "comments attached differently", src=src, got=got, want=want)
    return n


def esc_char(rng, ch, key, first):
    """One of the ways Java lets this character be written."""
    forced = ch in "\\\n\r" or (key and ch in " \t\f=:") or (first and ch in " \t\f") or (key and first and ch in "#!")
    o = ord(ch)
    u = (f"\\u{o:04x}" if o < 0x10000 else "".join(f"\\u{x:04X}" for x in (0xD800 + ((o - 0x10000) >> 10), 0xDC00 + ((o - 0x10000) & 0x3FF))))
    named = {"\t": "\\t", "\n": "\\n", "\r": "\\r", "\f": "\\f"}.get(ch)
    opts = []
    if named:
        opts += [named, u]
    elif ch == "\\":
        opts += ["\\\\", u]
    elif forced or rng.random() < 0.06:
        opts += [u] + (["\\" + ch] if ch not in "utnfr\n\r" else [])
    if not forced:
        opts += [ch] * 3
    return rng.choice(opts)


def write_value(rng, value, nl):
    out = []
    for i, ch in enumerate(value):
        out.append(esc_char(rng, ch, False, i == 0))
        if rng.random() < 0.05:
            nxt = value[i + 1:i + 2]
            if not nxt or nxt not in " \t\f":
                out.append("\\" + nl + rng.choice(["", "  ", "\t", " \f "]))
    s = "".join(out)
    return s


def gen_key(rng):
    r = rng.random()
    if r < 0.5:
        return gen.ident(rng, extra="._-")
    return gen.text(rng, 4, ctrl=True) or "k"


def gen_value(rng):
    r = rng.random()
    if r < 0.1:
        return ""
    return gen.text(rng, 7, ctrl=True)


def gen_text(rng):
    """A random file and the pairs it was made from."""
    nls = rng.choice([["\n"], ["\n"], ["\r\n"], ["\r"], ["\n", "\r\n", "\r"]])
    want = []
    src = ""
    for _ in range(rng.randint(1, 7)):
        nl = rng.choice(nls)
        r = rng.random()
        ind = rng.choice(["", "", "", " ", "\t", "\f "])
        if r < 0.15:
            src += ind + nl
        elif r < 0.4:
            for _ in range(rng.randint(1, 3)):
                src += rng.choice(["", "", " "]) + rng.choice("#!") + rng.choice(["", " ", rng.choice(["", " ", "  "]) + rng.choice(
                    [gen.plain(rng), gen.plain(rng) + " \\", "key = value", "# x"])]) + nl
        else:
            key, value = gen_key(rng), gen_value(rng)
            sep = rng.choice(["=", " = ", ":", " : ", "\t", " ", "  ", "\f=\t", " =\\" + nl + "  "])
            if not value and rng.random() < 0.5:
                sep = rng.choice(["", "=", " ", " = "])
            k = "".join(esc_char(rng, ch, True, i == 0) for i, ch in enumerate(key))
            v = write_value(rng, value, nl)
            if sep.strip(" \t\f") == "" and v[:1] in ("=", ":"):
                sep = "="
            src += ind + k + sep + v + nl
            want.append((key, value))
    if src.endswith(("\n", "\r")) and rng.random() < 0.3:
        src = src.rstrip("\r\n")
        if src.endswith("\\"):
            src += "\n"
    return src, want


def fam_text(ctx):
    rng = ctx.rng
    src, want = gen_text(rng)
    n = len(want)
    ctx.case(src, nontrivial=n > 0)
    ref = javaprops.pairs(src)
    if ref != want:
        # a generated line was ambiguous (e.g. stripped trailing newline); the reference decides
        ctx.ev("generator_ambiguous")
    enc = rng.random() < 0.5
    res = properties_parse(src.encode("utf-8") if enc else src)
    compare_with_reference(ctx, src, res)
    if all(ord(c) < 256 for c in src) and rng.random() < 0.3:
        check_same(ctx, properties_parse(src.encode("iso-8859-1"), encoding="iso-8859-1"), res, "encoding", "iso-8859-1 parse")
    out = "".join(properties_serialize(res))
    check_output(ctx, res, out)


RAW = list("ab=:#! \t\\\\\n\n") + ["\r", "\r\n", "\f", "\\u0041", "\\n", "\\t", "key", "k2 ", "= ", "\\\n", "\\\r\n ", "é", "\\:", "\\ ", "\\\\", "\\u20aC", "x", "# "]


def fam_raw(ctx):
    rng = ctx.rng
    src = "".join(rng.choice(RAW) for _ in range(rng.randint(1, 40)))
    ctx.case(src)
    try:
        items = javaprops.read(src)
    except javaprops.Malformed:
        raise Skip()
    if any(x[0] == "pair" and x[1] == "" for x in items):
        raise Skip()  # the data model requires non-empty identifiers
    res = properties_parse(src)
    n = compare_with_reference(ctx, src, res)
    ctx.nontrivial = n > 0


LINES = ["a", "\\", "\n", "\r", " ", "=", "#"]
SHORT = sum(len(LINES) ** n for n in range(7))
LONG = sum(len(LINES) ** n for n in range(8))


def fam_lines(ctx):
    """All short mixes of line separators, escapes and white space after a key."""
    i, n = ctx.index, 0
    while i >= len(LINES) ** n:
        i -= len(LINES) ** n
        n += 1
    src = "k="
    for _ in range(n):
        i, d = divmod(i, len(LINES))
        src += LINES[d]
    ctx.case(src)
    items = javaprops.read(src)
    if any(x[0] == "pair" and x[1] == "" for x in items):
        raise Skip()  # the data model requires non-empty identifiers
    compare_with_reference(ctx, src, properties_parse(src))


def gen_resource(ctx, uniq_values=True):
    rng = ctx.rng
    secs = []
    seen = set()
    rc = gen.comment(rng, "rc", 3) if rng.random() < 0.4 else ""
    first = True
    for si in range(rng.randint(1, 3) if rng.random() < 0.4 else 1):
        sid = () if si == 0 else tuple(gen.ident(rng) for _ in range(rng.randint(1, 2)))
        ents = []
        lead = first and not rc
        for _ in range(rng.randint(0, 5)):
            if rng.random() < 0.15 and (not first or rc):
                ents.append(Comment(gen.comment(rng, "sc", 3)))
                continue
            eid = tuple(gen_key(rng) for _ in range(rng.choice([1, 1, 1, 2])))
            full = ".".join(sid + eid)
            if full in seen:
                continue
            seen.add(full)
            v = gen_value(rng)
            pat = [v] if v else rng.choice([[], [""]])
            if len(v) > 2 and rng.random() < 0.2:
                pat = [v[:1], v[1:]]
            ents.append(Entry(eid, PatternMessage(pat), comment=gen.comment(rng, "ec", 3) if rng.random() < 0.3 else ""))
            first = False
        secs.append(Section(sid, ents, comment=gen.comment(rng, "hc", 2) if si and rng.random() < 0.4 else ""))
        if lead:
            secs[-1].comment = ""
    return Resource(Format.properties, secs, comment=rc)


def flattened(res):
    rc, out = res.comment, []
    for s in res.sections:
        if s.comment:
            out.append(("comment", s.comment))
        for e in s.entries:
            if isinstance(e, Entry):
                out.append(("pair", ".".join(s.id + e.id), flat(e.value), e.comment))
            else:
                out.append(("comment", e.comment))
    return rc, out


def clean(items):
    """Comment text as the serializer normalises it (outer blank lines and trailing spaces)."""
    def c(t):
        return "\n".join(x.rstrip() for x in t.strip("\n").split("\n")).strip("\n")
    out = []
    for x in items[1]:
        if x[0] == "pair":
            out.append((x[0], x[1], x[2], c(x[3])))
        elif c(x[1]):
            out.append((x[0], c(x[1])))
    return c(items[0]), out


def check_output(ctx, res, out):
    want = clean(flattened(res))
    got = javaprops.read(out)
    pairs = [(x[1], x[2]) for x in got if x[0] == "pair"]
    ctx.ev("serialized_pairs", len(pairs))
    ctx.check(pairs == [x[1:3] for x in want[1] if x[0] == "pair"], "serialized-pairs-differ-for-java",
              "Java reads other pairs from the serialized file", out=out, got=pairs, want=want)
    back = properties_parse(out)
    g = library_items(back)
    ctx.check(clean(g) == want, "roundtrip-differs", "re-parsed resource differs", out=out, got=g, want=want)


def fam_resource(ctx):
    rng = ctx.rng
    res = gen_resource(ctx)
    ctx.case(repr(res), nontrivial=any(True for _ in res.all_entries()))
    before = canon(res)
    out = "".join(properties_serialize(res))
    check_output(ctx, res, out)
    # ISO-8859-1: every character must be encodable, and mean the same
    out1 = "".join(properties_serialize(res, encoding="iso-8859-1", trim_comments=True))
    b = out1.encode("iso-8859-1")  # comments are trimmed as they are not escaped
    pairs = javaprops.pairs(b.decode("iso-8859-1"))
    want = [x[1:3] for x in flattened(res)[1] if x[0] == "pair"]
    ctx.ev("latin1_pairs", len(pairs))
    ctx.check(pairs == want, "latin1-pairs-differ", "", out=out1, got=pairs, want=want)
    ctx.check(all(ord(c) < 0x7f for c in out1), "latin1-not-ascii", "unescaped non-ASCII character in ISO-8859-1 output", out=out1)
    back = properties_parse(b, encoding="iso-8859-1")
    ctx.eq([x[1:3] for x in library_items(back)[1] if x[0] == "pair"], want, "latin1-roundtrip", out=out1)
    # through the generic entry points
    out2 = "".join(serialize_resource(res, Format.properties))
    ctx.eq(out2, out, "dispatch", "serialize_resource differs from properties_serialize")
    back = parse_resource("x.properties", out2.encode())
    ctx.check(clean(library_items(back)) == clean(flattened(res)), "roundtrip-differs", "parse_resource", out=out2)
    # Resource[str] takes values in their source form
    sres = Resource(Format.properties, [Section(s.id, [Entry(e.id, properties_serialize_message(e.value), comment=e.comment)
                    if isinstance(e, Entry) else e for e in s.entries], comment=s.comment) for s in res.sections], comment=res.comment)
    out3 = "".join(properties_serialize(sres))
    ctx.check(javaprops.pairs(out3) == want, "string-values", "Resource[str] output differs", out=out3, want=want)
    ctx.check(canon(res) == before, "mutated", "serializing changed the resource")


def fam_message(ctx):
    rng = ctx.rng
    v = gen_value(rng)
    ctx.case(v, nontrivial=bool(v))
    for asc in (False, True):
        s = properties_serialize_message(PatternMessage([v]), ensure_ascii=asc)
        if asc:
            ctx.check(s.isascii(), "message-not-ascii", "", s=s)
        ref = javaprops.pairs("k=" + s)
        ctx.ev("messages")
        ctx.check(ref == [("k", v)], "message-serialize", "Java reads another value", s=s, v=v, ref=ref)
        if s:
            m = properties_parse_message(s)
            ctx.eq(flat(m), v, "message-roundtrip", s=s)
    src = write_value(rng, v, rng.choice(["\n", "\r\n"]))
    try:
        want = javaprops.pairs("k=" + src)
    except javaprops.Malformed:
        raise Skip()
    if not src or src.lstrip(" \t\f") == "" or not want or javaprops.read("k=" + src)[0][5] or src.endswith(("\n", "\r")):
        raise Skip()
    ctx.eq(flat(properties_parse_message(src)), want[0][1], "message-parse", src=src)


def fam_known(ctx):
    src = ["ab\\\n  cd = x\n", "key \\\n = value\n"][ctx.index]
    ctx.case(src)
    compare_with_reference(ctx, src, properties_parse(src))


def fam_placeholders(ctx):
    """Every conversion is a variable of its kind."""
    printf.check(ctx, "properties")


FAMILIES = [
    Family("placeholders", fam_placeholders, 6000, 60000, need=['properties:string', 'properties:integer', 'properties:number', 'properties:datetime', 'properties:printf', "literal"]),
    Family("text", fam_text, 12000, 400000, need=["pairs_compared", "comments_compared", "serialized_pairs"]),
    Family("raw", fam_raw, 20000, 800000, need=["pairs_compared"]),
    Family("lines", fam_lines, SHORT, LONG, need=["pairs_compared"]),
    Family("resource", fam_resource, 8000, 250000, need=["serialized_pairs", "latin1_pairs"]),
    Family("message", fam_message, 12000, 300000, need=["messages"]),
    Family("known", fam_known, 2, 2),
]
