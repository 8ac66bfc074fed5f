"""Line positions: where the file's own lines are known, the reported ones are those."""
from __future__ import annotations

from moz.l10n.formats import Format
from moz.l10n.formats.fluent.parse import fluent_parse, fluent_parse_entry
from moz.l10n.formats.properties.parse import properties_parse
from moz.l10n.model import Comment, Entry
from moz.l10n.resource import parse_resource

from .. import files, gen
from ..core import Family, Skip

RULE = "distinct by source file"
ASSUMPTIONS = ["lines are those of the format: ended by LF or CRLF in Fluent, also by CR in .properties",
               "a value starts on the line of its first character; an empty value is on its key's line",
               "the end of an item is the line after its last one"]


class Lines:
    """A file being written, with what should be reported."""

    def __init__(self):
        self.lines = []
        self.crlf = False  # fluent.syntax splits comments at empty lines that end in CRLF
        self.want = []  # (what, name, start, key, value, end); value may be a set

    def here(self):
        return len(self.lines) + 1

    def put(self, *xs):
        self.lines += xs

    def text(self, rng, ends, final):
        out = ""
        for i, x in enumerate(self.lines):
            out += x + ("" if final is None and i == len(self.lines) - 1 else rng.choice(ends))
        return out


def words(rng, n=3):
    return " ".join(rng.choice(gen.WORDS).replace("\\", "").replace("{", "").replace("}", "") or "w" for _ in range(rng.randint(1, n)))


def word(rng):
    return rng.choice(["foo", "bar", "Über", "日本", "x1", "a b", "long words here", "\u2028y", "😀"])


def comment_lines(rng, mark, empty=True):
    out = [f"{mark} {word(rng)}"]
    for _ in range(rng.choice([0, 0, 1, 2])):
        out.append(rng.choice([*[mark] * empty, f"{mark} {word(rng)}", f"{mark}   {word(rng)}"]))
    if out[-1] == mark:
        out.append(f"{mark} end")
    return out


def blank(rng):
    return rng.choice(["", "", "", "  "])


def pattern(rng, f, head, indent):
    """Writes a pattern after head; the lines of its start and end."""
    k = rng.random()
    key = f.here()
    if k < 0.45:
        f.put(f"{head} {word(rng)}")
        start = key
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 2])):
                if rng.random() < 0.3:
                    f.put(blank(rng))
                f.put(f"{indent}{word(rng)}")
    elif k < 0.75:
        f.put(head + rng.choice(["", " "]))
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            f.put(blank(rng))
        start = f.here()
        f.put(f"{indent}{word(rng)}")
        for _ in range(rng.choice([0, 1, 2])):
            if rng.random() < 0.3:
                f.put(blank(rng))
            f.put(f"{indent}{rng.choice(['', ' '])}{word(rng)}")
    elif k < 0.85:
        f.put(f"{head} {{ $n ->")
        start = key
        select(rng, f, indent)
    else:
        f.put(head)
        start = f.here()
        f.put(f"{indent}{{ $n ->")
        select(rng, f, indent)
    return start, f.here()


def select(rng, f, indent):
    if rng.random() < 0.6:
        f.put(f"{indent}  [one] {word(rng)}")
    if rng.random() < 0.2:
        f.put(blank(rng))
    f.put(f"{indent} *[other] {word(rng)}")
    if rng.random() < 0.3:
        f.put(f"{indent}     {word(rng)}")
    f.put(indent + "}" + rng.choice(["", " tail", " "]))


def fluent_entry(rng, f, i, comment=0.3):
    start = f.here()
    if rng.random() < comment:
        f.put(*comment_lines(rng, "#", not f.crlf))
    key = f.here()
    term = rng.random() < 0.2
    name = f"{'-t' if term else 'm'}{i}"
    indent = rng.choice(["    ", " ", "  "])
    value = end = None
    attrs = rng.choice([0, 0, 0, 1, 2, 3])
    if term or attrs == 0 or rng.random() < 0.6:
        value, end = pattern(rng, f, f"{name} =" if rng.random() < 0.9 else f"{name}=", indent)
    else:
        f.put(f"{name} =")
    for j in range(attrs):
        if rng.random() < 0.15:
            f.put(blank(rng))
        _, end = pattern(rng, f, f"{indent}.a{j} =", indent + "  ")
    f.want.append(("entry", name, start, key, value or key, end))
    return name


def fluent_file(rng, crlf):
    f = Lines()
    f.crlf = crlf
    for _ in range(rng.choice([0, 0, 1, 2])):
        f.put(blank(rng))
    first = True
    for i in range(rng.choice([1, 2, 3, 5, 8])):
        k = rng.random()
        if k < 0.65:
            fluent_entry(rng, f, i)
        else:
            what = "comment" if k < 0.78 else "section" if k < 0.93 else "resource"
            start = f.here()
            c = comment_lines(rng, {"comment": "#", "section": "##", "resource": "###"}[what], not f.crlf)
            if what == "section" and not crlf and rng.random() < 0.15:
                c = ["##"]
            f.put(*c)
            if not (what == "comment" and first) and what != "resource":
                f.want.append((what, "", start, start, start, f.here()))
            f.put(blank(rng))
        first = False
        for _ in range(rng.choice([0, 0, 1, 2])):
            f.put(blank(rng))
    return f


def reported(res):
    out = []
    for n, s in enumerate(res.sections):
        if s.linepos:
            lp = s.linepos
            out.append(("section", "", lp.start, lp.key, lp.value, lp.end))
        for e in s.entries:
            lp = e.linepos
            what = ("comment", "") if isinstance(e, Comment) else ("entry", e.id[0])
            out.append((*what, *((lp.start, lp.key, lp.value, lp.end) if lp else (None,) * 4)))
    return out


def monitor(ctx, fmt, f, src, got):
    # a section replaced by the next one, when it is empty, has no entries to point at
    want = f.want
    ctx.eq([x[:2] for x in got if x[0] != "section"], [x[:2] for x in want if x[0] != "section"], f"{fmt}-items", src=src)
    for what in ("entry", "comment", "section"):
        g, w = [x for x in got if x[0] == what], [x for x in want if x[0] == what]
        if what == "section" and len(g) != len(w):
            g = [x for x in g if x in w] if len(g) < len(w) and all(x in w for x in g) else g
            ctx.check(all(x in w for x in g), f"{fmt}-section", f"{g} not in {w}", src=src)
            continue
        for a, b in zip(g, w):
            ctx.ev(f"{fmt}_{what}")
            for name, x, y in zip(("start", "key", "value", "end"), a[2:], b[2:]):
                ctx.check(x in y if isinstance(y, set) else x == y, f"{fmt}-{what}-{name}", f"{a[1]}: {x} is not {y}: {a[2:]} / {b[2:]}", src=src)
    last = 0
    for a in sorted(got, key=lambda a: (a[2] or 0, a[5] or 0)):
        ctx.check(a[2] >= last and a[2] <= a[3] <= a[4] < a[5], f"{fmt}-order", f"{a} after {last}", src=src)
        last = a[5]
    ctx.ev("lines", len(f.lines))


def fam_fluent(ctx):
    rng = ctx.rng
    ends = rng.choice([["\n"], ["\n"], ["\r\n"], ["\n", "\r\n"]])
    f = fluent_file(rng, "\r\n" in ends)
    final = rng.choice(["\n", "\n", None])
    src = f.text(rng, ends, final)
    ctx.case(src)
    if final is None:
        ctx.ev("no_final_newline")
    if len(ends) > 1:
        ctx.ev("mixed_ends")
    res = fluent_parse(src) if rng.random() < 0.5 else parse_resource(Format.fluent, src.encode())
    monitor(ctx, "fluent", f, src, reported(res))
    if rng.random() < 0.2:
        plain = fluent_parse(src, with_linepos=False)
        ctx.check(all(x[2] is None for x in reported(plain)) and plain == res, "fluent-without", src=src)
        ctx.ev("without")


def fam_entry(ctx):
    """Single Fluent entries."""
    rng = ctx.rng
    f = Lines()
    f.crlf = True
    fluent_entry(rng, f, 0)
    src = f.text(rng, rng.choice([["\n"], ["\r\n"]]), rng.choice(["\n", None]))
    ctx.case(src)
    e = fluent_parse_entry(src)
    lp = e.linepos
    _, _, *want = f.want[0]
    # the comment is skipped by the parser of single entries
    ctx.eq([lp.start, lp.key, lp.value, lp.end], want if e.comment else [want[1], *want[1:]], "fluent-single-entry", src=src)
    ctx.ev("single_entries")


def properties_file(rng):
    f = Lines()
    first = True
    for _ in range(rng.choice([0, 0, 1, 2])):
        f.put(blank(rng))
    for i in range(rng.choice([1, 2, 3, 5, 8])):
        if rng.random() < 0.7:
            start = f.here()
            if rng.random() < 0.3:
                f.put(*comment_lines(rng, rng.choice("#!")))
            key = f.here()
            name = f"k{i}"
            sep = rng.choice(["=", " = ", ":", " ", "\t"])
            k = rng.random()
            pad = rng.choice(["", "", "", " ", "\t"])
            value = {key}
            written = name
            if False:  # a key cannot go on, here: see the known findings
                f.put(f"{pad}{name}\\")
                written = rng.choice(["", "  "]) + "x"
                name += "x"
                pad = ""
                value = {key, key + 1}
            if k < 0.15:
                f.put(f"{pad}{written}{rng.choice(['', '=', ' = '])}")
            elif k < 0.6:
                f.put(f"{pad}{written}{sep}{word(rng)}")
            else:
                f.put(f"{pad}{written}{sep}{rng.choice([word(rng), ''])}\\")
                if f.lines[-1].endswith(sep + "\\"):
                    value = {key, key + 1, key + 2}
                for _ in range(rng.choice([0, 0, 1, 2])):
                    f.put(f"{rng.choice(['', ' ', '    '])}{rng.choice(['', word(rng)])}\\")
                    value |= {f.here()} if len(value) > 1 else set()
                f.put(f"{rng.choice(['', ' ', '    '])}{word(rng)}")
            f.want.append(("entry", name, start, key, value, f.here()))
            first = False
        else:
            start = f.here()
            f.put(*comment_lines(rng, rng.choice("#!")))
            if not first:
                f.want.append(("comment", "", start, start, start, f.here()))
            first = False
            f.put("")
        for _ in range(rng.choice([0, 0, 1, 2])):
            f.put(blank(rng))
    return f


def fam_properties(ctx):
    rng = ctx.rng
    f = properties_file(rng)
    ends = rng.choice([["\n"], ["\n"], ["\r\n"], ["\r"], ["\n", "\r\n"]])
    final = rng.choice(["\n", "\n", None])
    src = f.text(rng, ends, final)
    ctx.case(src)
    if final is None:
        ctx.ev("no_final_newline")
    if len(ends) > 1:
        ctx.ev("mixed_ends")
    kw = {"printf_placeholders": True} if rng.random() < 0.3 else {}
    res = properties_parse(src, **kw) if rng.random() < 0.6 else parse_resource(Format.properties, src.encode(), **({"properties_printf_placeholders": True} if kw else {}))
    monitor(ctx, "properties", f, src, reported(res))


def fam_any(ctx):
    """Whatever a parser reports is within the file and in its order."""
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    src = files.source(rng, fmt, small=True)
    ctx.case(fmt + src)
    try:
        res = parse_resource(Format[fmt], src)
    except Exception:
        raise Skip()
    n = src.count("\n") + src.count("\r") + 2
    last = 0
    for s in res.sections:
        for x in [s, *s.entries]:
            lp = x.linepos
            if lp is None:
                ctx.check(x is s or fmt not in ("fluent", "properties"), f"{fmt}-unreported", src=src, item=x)
                continue
            ctx.check(last <= lp.start <= lp.key <= lp.value < lp.end <= n and lp.start > 0, f"{fmt}-order", f"{lp!r} after {last} of {n}", src=src, item=x)
            last = lp.end
            ctx.ev("positions_" + fmt)


FAMILIES = [
    Family("fluent", fam_fluent, 20000, 300000, need=["fluent_entry", "fluent_comment", "fluent_section", "no_final_newline", "mixed_ends", "without"]),
    Family("entry", fam_entry, 2000, 50000, need=["single_entries"]),
    Family("properties", fam_properties, 20000, 300000, need=["properties_entry", "properties_comment", "no_final_newline", "mixed_ends"]),
    Family("any", fam_any, 4000, 60000, need=["positions_fluent", "positions_properties"]),
]
