"""C32: comments keep their place and their text in every format that has them."""

import re

from moz.l10n.formats import Format
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import parse_resource, serialize_resource

from .. import gen
from ..core import Family, Skip
from ..model import canon

RULE = "One violation per resource in which a comment is lost, changed, moved to another part, or not written next to what it is about."
ASSUMPTIONS = ["comments of gettext messages have no empty lines (polib drops them)",
               "comments are in the normal form that the parsers give: no outer blank lines, no white space around lines",
               "DTD and XML comments: -- is written with a zero width space in it"]

# where comments may be, by format: resource, section, standalone, entry
LEVELS = {
    "android": "rse", "dtd": "rse", "fluent": "rgse", "gettext": "re", "inc": "rse", "ini": "rgse", "properties": "rse", "xliff": "fgse",
}
TAILS = ["", "", "", "", " = x", ": y", " 'z'", ' "q', " & b", " &amp;", " <i>", " #5", " ;x", " é漢", " {$x}", " 100%", " [s]", " - w", "\tt", " \\n", " \\", " <!ENTITY", " */", " ]]>", " %S", " 😀", " a--b", " end-", " @k"]
HEADS = ["", "", "", "", "", "", "[s] ", "@k: ", "é ", "= ", ": ", "- ", "& ", "< ", "% ", "\\ ", "{ ", ", ", "~ ", "| ", "! ", "; "]


class Comments:
    def __init__(self, rng, fmt):
        self.rng, self.fmt, self.n = rng, fmt, 0

    def __call__(self, p=1.0):
        rng = self.rng
        if rng.random() >= p:
            return ""
        self.n += 1
        lines = []
        k = rng.choice([1, 1, 1, 2, 3, 5])
        for i in range(k):
            if self.fmt != "gettext" and 0 < i < k - 1 and rng.random() < 0.3 and lines[-1]:
                lines.append("")
            else:
                lines.append(rng.choice(HEADS) + f"note{self.n}x{i}" + ("" if rng.random() < 0.3 else " " + gen.plain(rng, 4)) + rng.choice(TAILS))
        return "\n".join(lines)


def value(rng, fmt):
    if fmt in ("android", "gettext", "fluent") and rng.random() < 0.2:
        if fmt == "gettext":
            return SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {("0",): ["one"], (CatchallKey("1"),): ["more"]})
        name, fn = ("quantity", "number") if fmt == "android" else ("n", "number")
        return SelectMessage({name: Expression(VariableRef(name), fn)}, (VariableRef(name),), {("one",): ["one"], (CatchallKey("other"),): ["more"]})
    if rng.random() < 0.1:
        return PatternMessage([])  # not translated yet
    return PatternMessage([rng.choice(["value", "a b c", "Hello, world", "é"])])


def eid(rng, fmt, n):
    key = f"key{n}" + rng.choice(["", "_a", "Z"])
    if fmt == "fluent" and rng.random() < 0.1:
        key = "-" + key
    return (key,)


def resource(rng, fmt):
    c = Comments(rng, fmt)
    lv = LEVELS[fmt]
    n = 0
    sections = []
    for k in range(rng.choice([1, 1, 2, 3]) if "g" in lv else 1):
        sid = () if fmt not in ("ini", "xliff") else (f"sec{k}",)
        if fmt == "xliff" and k and rng.random() < 0.4:
            sid = sections[-1].id + (f"grp{k}",)
        entries = []
        prev = None
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            if "s" in lv and rng.random() < 0.25:
                entries.append(Comment(c()))
            n += 1
            e = Entry(eid(rng, fmt, n), value(rng, fmt), comment=c(0.5))
            if fmt == "xliff":
                e.meta = [Metadata("source", "Source")] if rng.random() < 0.5 else [Metadata("source", "Source"), Metadata("@approved", "yes")]
            if fmt == "fluent" and rng.random() < 0.2:
                e.properties = {"title": PatternMessage(["attr"])}
            if fmt == "android" and rng.random() < 0.1:
                e.meta = [Metadata("translatable", "false")]
            entries.append(e)
        if "s" in lv and rng.random() < 0.2:
            entries.append(Comment(c()))
        sec = Section(sid, entries)
        if "g" in lv and not (fmt == "xliff" and len(sid) > 1) and not (fmt == "fluent" and not k and rng.random() < 0.5):
            sec.comment = c(0.6)
        sections.append(sec)
    res = Resource(Format[fmt], sections)
    if "r" in lv:
        res.comment = c(0.5)
    if fmt == "gettext":
        res.meta = [Metadata("Language", "xx"), Metadata("Plural-Forms", "nplurals=2; plural=n != 1;")]
    if fmt == "android":
        res.meta = []
    return res


def flat(res, fmt):
    """Comments by place."""
    def t(s):
        if fmt in ("android", "xliff", "dtd"):
            s = s.replace("\u200b", "")
        return "\n".join(line.strip() for line in s.split("\n")).strip("\n")

    out = [("resource", t(res.comment))] if res.comment else []
    for s in res.sections:
        if s.id or s.comment:
            out.append(("section", s.id, t(s.comment)))
        for e in s.entries:
            out.append(("standalone", t(e.comment)) if isinstance(e, Comment) else ("entry", e.id, t(e.comment)))
    if fmt == "fluent" and res.meta and res.meta[0].key == "info":
        out.insert(0, ("standalone", t(res.meta[0].value)))  # the first comment of a file
    if fmt in ("dtd", "inc", "ini", "properties"):  # nothing tells them apart
        out = [("standalone", x[1]) if x[0] == "resource" else x for x in out]
    return out


def fam_model(ctx):
    rng = ctx.rng
    fmt = list(LEVELS)[ctx.index % len(LEVELS)]
    res = resource(rng, fmt)
    ctx.case(repr(canon(res)))
    out = "".join(serialize_resource(res))
    back = parse_resource(Format[fmt], out)
    want, got = flat(res, fmt), flat(back, fmt)
    diff = [(a, b) for a, b in zip(got, want) if a != b][:1] or [len(got), len(want)]
    ctx.check(got == want, f"comments-{fmt}", f"{diff}", out=out)
    ctx.ev("resources_" + fmt)
    ctx.ev("comments", len([x for x in want if x[-1]]))
    # in the text: all lines of a comment together, after the entry before it and before its own
    pos = 0
    text = out.replace("\u200b", "")
    for x in want:
        for line in x[-1].split("\n") if x[-1] else ():
            m = re.search(r"note\d+x\d+", line)
            if m:
                i = text.find(m[0])
                if fmt == "xliff" and x[0] == "entry":
                    ctx.check(i > 0, "text-" + fmt, m[0], out=out)
                    continue
                ctx.check(i >= pos, "text-" + fmt, f"{m[0]} at {i}, not after {pos}", out=out)
                pos = i
        if x[0] == "entry" and fmt != "android":  # plurals have their comments within
            i = re.search(re.escape(x[1][0]) + r"\b", text[pos:])
            ctx.check(i is not None, "key-" + fmt, x[1][0], out=out)
            pos += i.start() if i else 0
    # trimmed: none of them, all else the same
    trimmed = "".join(serialize_resource(res, trim_comments=True))
    ctx.check(not re.search(r"note\d+x\d", trimmed), "trimmed-" + fmt, "", out=trimmed)


# ---------- comments as people write them in XML ----------
def xml_comment(rng, text, ind):
    lines = text.split("\n")
    body = [x.replace("--", "==").replace("- ", "= ").rstrip("-") for x in lines]
    r = rng.random()
    if len(lines) == 1:
        src = rng.choice([" {} ", "{}", "\n{}\n", "  {}  "]).format(body[0])
    elif r < 0.25 and all(body):
        src = " " + "\n   - ".join(body) + " "
    else:
        pad = lambda: rng.choice(["", " ", "\t", ind, ind + "  ", ind + "     "])  # noqa: E731
        src = rng.choice([" ", "\n" + ind, "\n"]) + "\n".join((pad() if k and x else "") + x + (rng.choice(["", "", " "]) if x else "") for k, x in enumerate(body)) + rng.choice([" ", "\n" + ind, "\n"])
    return "<!--" + src + "-->", "\n".join(body)


def plain_comment(c, rng):
    return re.sub("[<>&@]", "", c())


def fam_android(ctx):
    rng = ctx.rng
    c = Comments(rng, "android")
    want, out, top = [], "<?xml version='1.0' encoding='utf-8'?>\n", []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        x, t = xml_comment(rng, plain_comment(c, rng), "")
        out += x + rng.choice(["\n", "\n\n"])
        top.append(t)
    if top:
        want.append(("resource", "\n\n".join(top)))
    out += "<resources>\n"
    n = 0
    for _ in range(rng.choice([1, 2, 3, 4])):
        pending = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            x, t = xml_comment(rng, plain_comment(c, rng), "  ")
            alone = rng.random() < 0.4
            out += "  " + x + ("\n\n" if alone else "\n")
            pending.append(t)
            if alone:
                want.append(("standalone", "\n\n".join(pending)))
                pending = []
        n += 1
        r = rng.random()
        if r < 0.55:
            out += f'  <string name="k{n}">v</string>\n'
        elif r < 0.7:
            out += f'  <string-array name="k{n}">\n'
            for k in range(rng.choice([1, 2, 3])):
                while rng.random() < 0.35:
                    x, t = xml_comment(rng, plain_comment(c, rng), "    ")
                    out += "    " + x + "\n"
                    pending.append(t)
                out += "    <item>v</item>\n"
                want.append(("entry", (f"k{n}", str(k)), "\n\n".join(pending)))
                pending = []
            if rng.random() < 0.3:
                x, t = xml_comment(rng, plain_comment(c, rng), "    ")
                out += "    " + x + "\n"
                want.append(("standalone", t))
            out += "  </string-array>\n"
            continue
        else:
            out += f'  <plurals name="k{n}">\n'
            for q in ("one", "other"):
                if rng.random() < 0.4:
                    text = plain_comment(c, rng)
                    x, t = xml_comment(rng, text.split("\n")[0] if q == "other" else text, "    ")
                    out += "    " + x + "\n"
                    pending.append("other: " + t if q == "other" else t)
                out += f'    <item quantity="{q}">v</item>\n'
            if rng.random() < 0.3:
                x, t = xml_comment(rng, plain_comment(c, rng), "    ")
                out += "    " + x + "\n"
                pending.append(t)
            out += "  </plurals>\n"
        want.append(("entry", (f"k{n}",), "\n\n".join(pending)))
    out += "</resources>\n"
    check_source(ctx, "android", out, want)


def fam_xliff(ctx):
    rng = ctx.rng
    c = Comments(rng, "xliff")
    want, out, top = [], '<?xml version="1.0" encoding="utf-8"?>\n', []

    def com(ind):
        x, t = xml_comment(rng, plain_comment(c, rng), ind)
        return ind + x + "\n", t

    def many(p=(0, 0, 1, 1, 2), ind=""):
        xs = [com(ind) for _ in range(rng.choice(p))]
        return "".join(x for x, _ in xs), [t for _, t in xs]

    x, top = many()
    out += x
    if top:
        want.append(("resource", "\n\n".join(top)))
    out += '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">\n'
    n = 0

    def units(ind, sid, depth):
        nonlocal n
        res, text, subs = [], "", []
        for _ in range(rng.choice([0, 1, 2, 3])):
            x, ts = many((0, 0, 1), ind)
            text += x
            res += [("standalone", t) for t in ts]
            if depth and rng.random() < 0.2:
                n += 1
                gid = (*sid, f"g{n}")
                t, r, s = units(ind + "  ", gid, depth - 1)
                text += f'{ind}<group id="{gid[-1]}">\n{t}{ind}</group>\n'
                subs += [("section", gid, "")] + r + s
                continue
            n += 1
            notes = []
            text += f'{ind}<trans-unit id="k{n}">\n{ind}  <source>s</source>\n'
            for _ in range(rng.choice([0, 0, 1, 2])):
                note = plain_comment(c, rng)
                frm = rng.choice(["", "", "me"])
                text += f"{ind}  <note" + (f' from="{frm}"' if frm else "") + f">{note}</note>\n"
                notes.append((frm + ": " if frm else "") + note)
            text += f"{ind}</trans-unit>\n"
            res.append(("entry", (f"k{n}",), "\n\n".join(notes)))
        x, ts = many((0, 0, 0, 1), ind)
        return text + x, res + [("standalone", t) for t in ts], subs

    for k in range(rng.choice([1, 1, 2, 3])):
        x, ts = many(ind="  ")
        fid = (f"f{k}",)
        t, r, s = units("      ", fid, 2)
        a, b = many((0, 0, 0, 1), "    ")
        e, f = many((0, 0, 0, 1), "    ")
        out += x + f'  <file original="f{k}" source-language="en" datatype="plaintext">\n{a}    <body>\n{t}    </body>\n{e}  </file>\n'
        want += [("section", fid, "\n\n".join(ts))] + [("standalone", y) for y in b + f] + r + s
    out += "</xliff>\n"
    check_source(ctx, "xliff", out, want)


def check_source(ctx, fmt, src, want):
    ctx.case(src)
    res = parse_resource(Format[fmt], src)
    fl = lambda w: [x[:-1] + ("\n".join(re.sub("[ \t]+", " ", line.strip()) for line in re.sub("other:\\s+", "other: ", x[-1]).split("\n")).strip("\n"),) for x in w]  # noqa: E731
    want = fl(want)
    got = fl([x for x in flat(res, fmt) if fmt != "android" or x[0] != "section"])
    diff = [(a, b) for a, b in zip(got, want) if a != b][:1] or [len(got), len(want)]
    ctx.check(got == want, "source-" + fmt, f"{diff}", src=src)
    ctx.ev("sources_" + fmt)
    ctx.ev("comments", len([x for x in want if x[-1]]))
    if fmt == "android" or not any(len(x[1]) > 1 for x in want if x[0] == "section"):
        back = parse_resource(Format[fmt], "".join(serialize_resource(res)))
        again = fl([x for x in flat(back, fmt) if fmt != "android" or x[0] != "section"])
        if fmt == "xliff":
            again, got = sorted(again), sorted(got)  # comments outside <body> are moved into it
        diff = [(a, b) for a, b in zip(again, got) if a != b][:1] or [len(again), len(got)]
        ctx.check(again == got, "again-" + fmt, f"{diff}", src=src)


def fam_xcode(ctx):
    """Notes of Xcode strings that vary by plural or device: one comment, or one for each variant."""
    rng = ctx.rng
    kind = rng.choice(["plural", "device", "base", "sub"])
    pool = [f"note{i} {rng.choice(TAILS).strip()}".strip() for i in range(rng.choice([1, 1, 2, 3]))]

    def notes():
        n = rng.choice([0, 1, 1, 1, 2])
        ts = [rng.choice(pool) for _ in range(n)]
        return ts, "".join(f"<note{rng.choice(['', '', ' from=\"dev\"'])}>{rng.choice(['', ' '])}{t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')}{rng.choice(['', ' '])}</note>" for t in ts) + rng.choice(["", "", "<note/>", "<note> </note>"])

    def unit(id, src):
        ts, xml = notes()
        units.append(f'<trans-unit id="{id}"><source>{src}</source><target>t {src}</target>{xml}</trans-unit>')
        return "\n\n".join(ts)

    units, by = [], {}
    if kind == "base":
        by[""] = unit("k", "s")
    elif kind == "sub":
        by[""] = unit("k", "a %#@v@")
        for q in rng.sample(["one", "few"], rng.randint(0, 2)) + ["other"]:
            by["v/" + q] = unit(f"k|==|substitutions.v.plural.{q}", "%arg x")
    else:
        for q in rng.sample(["one", "few", "zero"] if kind == "plural" else ["mac", "ipad", "iphone"], rng.randint(0, 3)) + ["other"]:
            by[q] = unit(f"k|==|{kind}.{q}", "%d x" if kind == "plural" else "x")
    src = ('<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="a.xcstrings" source-language="en" datatype="plaintext"><header><tool tool-id="com.apple.dt.xcode" tool-name="X" tool-version="1" build-num="1"/></header><body>'
           + "".join(units) + "</body></file></xliff>")
    ctx.case(src)
    se = rng.random() < 0.3
    (e,) = parse_resource(Format.xliff, src, xliff_source_entries=se).sections[0].entries
    there = {k: v for k, v in by.items() if v}
    if not there:
        want = ""
    elif kind == "base":
        want = by[""]
    elif len(set(there.values())) == 1 and (len(there) > 1 if kind == "sub" else len(there) == len(by)):
        want = next(iter(there.values()))
    else:
        want = "\n\n".join(f"{k}: {v}" if k else v for k, v in there.items())
    ctx.eq(e.comment, want, "xcode-comment", f"notes of a {kind} string", src=src)
    res = parse_resource(Format.xliff, src, xliff_source_entries=se)
    out = "".join(serialize_resource(res, xliff_source_entries=se))
    count = lambda x: sorted(re.sub(r"\s*\n\s*", "", t).strip() for t in re.findall(r"<note[^>/]*>([^<]*)</note>", x) if t.strip())  # noqa: E731
    ctx.eq(count(out), count(src), "xcode-notes", "notes of the written file", src=src, out=out)
    ctx.ev("xcode_" + kind)


FAMILIES = [
    Family("model", fam_model, 24000, 160000, need=["resources_" + f for f in LEVELS] + ["comments"]),
    Family("android", fam_android, 8000, 40000, need=["sources_android"]),
    Family("xcode", fam_xcode, 4000, 20000, need=["xcode_plural", "xcode_device", "xcode_base", "xcode_sub"]),
    Family("xliff", fam_xliff, 8000, 40000, need=["sources_xliff"]),
]
