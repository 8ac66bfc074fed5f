"""Generators of DTD, .inc and .ini files with what they hold, and independent readers of such files."""
from __future__ import annotations

import re
import xml.parsers.expat as expat

from . import gen
from .model import flat

sq = lambda s: re.sub(r"\s+", " ", s).strip()  # noqa: E731


def view(res):
    """Flat content of a resource; white space in comments is layout."""
    from moz.l10n.model import Entry

    out = [("c", sq(res.comment))] if res.comment else []
    out += [("m", m.key, m.value) for m in res.meta]
    for s in res.sections:
        if s.id or s.comment:
            out.append(("s", ".".join(s.id), sq(s.comment)))
        for e in s.entries:
            if isinstance(e, Entry):
                out.append(("e", ".".join(e.id), flat(e.value), sq(e.comment)))
            else:
                out.append(("c", sq(e.comment)))
    return out


def ctext(rng, multi="\n", n=3):
    """A comment body: words, some odd characters, perhaps several lines."""
    lines = []
    for _ in range(rng.randint(1, n)):
        t = gen.plain(rng, 4)
        if rng.random() < 0.4:
            t += rng.choice([" = x", ": y", " 'z'", ' "q', " & b", " <i>", " #5", " ;x", " é漢", " {$x}", " 100%", " [s]", " - w", " \u2028w", "\tt"])
        lines.append(t)
    return multi.join(lines)


# ------------------------------------------------------------------ DTD

DTD_TEXT = ["&brandShortName;", "&quot;", "&amp;", "&#38;", "<b>", "</b>", "<!", "-->", "--", "%S", "%", "\n", "\n  ", " ", "  ", "\t", "é", "漢字", "😀", "\u2028", "\u00a0",
            "#", "\\n", "[", "]]>", "{", ">", "<", "<!ENTITY x y>", "&", ";"]
STRICT_TEXT = ["&brandShortName;", "&quot;", "&amp;", "<b>", "</b>", "-->", "--", "\n", "\n  ", " ", "  ", "\t", "é", "漢字", "😀", "\u2028", "\u00a0", "#", "\\n", "[", "]]>", ">", "<"]


def dtd_name(rng):
    return rng.choice(["", "", "", "_", ":", "é"]) + gen.ident(rng, 1, 6, "_-.") + rng.choice(["", "", ".label", ".access-key", "·x", "é"])


def dtd_value(rng, strict=False):
    n = rng.choice([0, 1, 1, 2, 3, 5])
    v = "".join(gen.plain(rng, 2) if rng.random() < 0.5 else rng.choice(STRICT_TEXT if strict else DTD_TEXT) for _ in range(n))
    while re.search(r"<!\s*--", v):
        v = re.sub(r"<!\s*--", "", v)
    return v.replace("%", "") if strict else v


def dtd_file(rng, strict=False):
    nl = rng.choice(["\n", "\n", "\n", "\r\n"])
    ws = lambda: rng.choice([" ", " ", " ", "  ", "\t", nl + " "])  # noqa: E731
    src, out = rng.choice(["", "", nl, "  "]), []
    metas, names, top = [], {"lt", "gt", "amp", "quot", "apos"}, False
    fresh = True  # nothing but white space on this line, and an empty line before it
    for _ in range(rng.randint(0, 8)):
        r = rng.random()
        if r < 0.15:
            t = ctext(rng, nl + rng.choice(["", "     ", "   - "]))
            if rng.random() < 0.15:
                t = f'<!ENTITY {dtd_name(rng)} "x">'.replace("--", "-")
            src += ("" if fresh else nl + nl) + f"<!--{rng.choice(['', ' ', nl])}{t}{rng.choice(['', ' ', nl])}-->" + rng.choice([nl + nl, nl + "  " + nl, nl * 3])
            if not any(x[0] in "ce" for x in out) and not t.startswith("<!ENT"):
                top = True
            out.append(("c", sq(t)))
            fresh = True
            continue
        if r < 0.25:
            for _ in range(rng.choice([1, 1, 2])):
                k, v = dtd_name(rng), "chrome://" + gen.word(rng) + "/locale/x.dtd"
                if k in names:
                    continue
                names.add(k)
                q = rng.choice("\"'")
                if rng.random() < 0.15:
                    v += "#" + ("'" if q == '"' else '"')
                src += f"<!ENTITY{ws()}%{ws()}{k}{ws()}SYSTEM{ws()}{q}{v}{q}{rng.choice(['', ' '])}>{rng.choice(['', nl, ' '])}%{k};{rng.choice([nl, nl + nl, ''])}"
                metas.append(("m", k, v))
            fresh = False
            continue
        k = dtd_name(rng)
        if strict and k in names:
            continue
        names.add(k)
        v = dtd_value(rng, strict)
        q = rng.choice("\"'")
        v = v.replace(q, "")
        if rng.random() < 0.3:
            v += {'"': "'", "'": '"'}[q]
        c = []
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 1, 2])):
                c.append(ctext(rng, nl))
                src += f"<!--{rng.choice(['', ' '])}{c[-1]}{rng.choice(['', ' '])}-->" + rng.choice([nl, nl, nl + "  ", "" if fresh else nl])
                if not src.endswith(nl):
                    fresh = False
            if not fresh and not src.rstrip(" ").endswith(nl):
                src += nl
        src += f"<!ENTITY{ws()}{k}{ws()}{q}{v}{q}{rng.choice(['', '', ' ', nl])}>"
        fresh = False
        if rng.random() < 0.15:
            c.append(ctext(rng, nl))
            src += rng.choice(["", " ", "\t"]) + f"<!-- {c[-1]} -->"
            src += nl
        else:
            src += rng.choice([nl, nl, nl + nl, nl + " "])
        out.append(("e", k, v, sq(" ".join(c))))
    return src, (out[:1] if top else []) + metas + (out[1:] if top else out)


def dtd_read(text):
    """Entities, includes and comments of a DTD, by a plain scan."""
    pos, out, pending, gap = 0, [], "", ""
    metas = []

    def flush():
        nonlocal pending
        if pending:
            out.append(("c", sq(pending)))
        pending = ""

    while pos < len(text):
        if text[pos].isspace():
            m = re.compile(r"\s+").match(text, pos)
            gap = m[0]
            pos = m.end()
            if gap.count("\n") > 1:
                flush()
            continue
        if text.startswith("<!--", pos):
            end = text.index("-->", pos + 4)
            body = text[pos + 4:end]
            if "--" in body:
                raise ValueError("-- in comment")
            pending += " " + body
            pos = end + 3
            continue
        m = re.compile(r"<!ENTITY\s+(%\s+)?([^\s\"'<>%&]+)\s+(SYSTEM\s+)?(\"[^\"]*\"|'[^']*')\s*>").match(text, pos)
        if m:
            if m[1]:
                flush()
                metas.append(("m", m[2], m[4][1:-1]))
            else:
                out.append(("e", m[2], m[4][1:-1], sq(pending)))
                pending = ""
            pos = m.end()
            continue
        m = re.compile(r"%([^;\s]+);").match(text, pos)
        if not m:
            raise ValueError(f"unexpected {text[pos:pos + 40]!r}")
        pos = m.end()
    flush()
    return metas, out


def dtd_expat(text):
    """name -> replacement text, as an XML parser sees it."""
    p = expat.ParserCreate()
    p.SetParamEntityParsing(expat.XML_PARAM_ENTITY_PARSING_ALWAYS)
    got, incl, stack = {}, [], []

    def decl(name, is_param, value, base, system, public, notation):
        if is_param:
            incl.append((name, system))
        else:
            got[name] = value

    def ext(context, base, system, public):
        sub = (stack[-1] if stack else p).ExternalEntityParserCreate(context)
        stack.append(sub)
        sub.EntityDeclHandler = decl
        sub.ExternalEntityRefHandler = ext
        sub.Parse(text.encode() if system == "main.dtd" else b"", True)
        stack.pop()
        return 1

    p.EntityDeclHandler = decl
    p.ExternalEntityRefHandler = ext
    p.Parse(b'<?xml version="1.0" encoding="utf-8"?><!DOCTYPE r SYSTEM "main.dtd"><r/>', True)
    return got, incl


# ------------------------------------------------------------------ .inc

INC_TEXT = ["#", "# x", "&amp;", "<em:contributor>", "</em:contributor>", " ", "  ", "\t", "é", "漢字", "\u2028", "\x0b", "\x0c", "\x85", "\x1c", "\u00a0", ";", "=", "\\n", "%S", '"', "'", "//"]


def inc_name(rng):
    return rng.choice(["", "", "MOZ_", "9", "é", "_"]) + gen.ident(rng, 1, 6, "_") + rng.choice(["", "", "é", "_1"])


def inc_value(rng):
    return "".join(gen.plain(rng, 2) if rng.random() < 0.6 else rng.choice(INC_TEXT) for _ in range(rng.choice([0, 1, 1, 2, 3])))


def inc_file(rng):
    nl = rng.choice(["\n", "\n", "\n", "\r\n", "\r"])
    blank = lambda: rng.choice([nl, nl, " " + nl, nl + nl])  # noqa: E731
    src, out = rng.choice(["", "", nl]), []
    for _ in range(rng.randint(0, 9)):
        r = rng.random()
        if r < 0.2:
            d = rng.choice(["#filter emptyLines", "#unfilter emptyLines", "#ifdef X", "#endif", "#x", "##", "#include y", "#define", "#define a-b c", "#\tx"])
            src += d + nl + rng.choice(["", blank()])
            out.append(("c", sq(d)))
            continue
        c = []
        if r < 0.35 or rng.random() < 0.4:
            for i in range(rng.randint(1, 3)):
                if 0 < i and rng.random() < 0.3:
                    src += rng.choice(["#", "# "]) + nl
                t = ctext(rng, n=1)
                if rng.random() < 0.1:
                    t = f"# #define {inc_name(rng)} x"
                    src += t + nl
                else:
                    src += "# " + rng.choice(["", "", "  "]) + t + nl
                c.append(t)
            if r < 0.35:
                src += blank()
                out.append(("c", sq(" ".join(c))))
                continue
        k, v = inc_name(rng), inc_value(rng)
        src += f"#define{rng.choice([' ', ' ', '  ', chr(9)])}{k}"
        if v or rng.random() < 0.5:
            src += rng.choice([" ", " ", "\t"]) + v
        src += nl + rng.choice(["", blank()])
        out.append(("e", k, v, sq(" ".join(c))))
    if src and rng.random() < 0.2 and not src.rstrip(nl).endswith(" "):
        src = src.rstrip("\r\n")
    return src, out


def inc_read(text):
    """What a preprocessor sees: (name, value) pairs, directives and comments."""
    out, c = [], []

    def flush():
        if c:
            out.append(("c", sq(" ".join(c))))
        c.clear()

    for line in text.split("\n"):
        if m := re.fullmatch(r"#define[ \t]+(\w+)(?:[ \t](.*))?", line):
            out.append(("e", m[1], m[2] or "", sq(" ".join(c))))
            c.clear()
        elif re.match(r"# |#$", line):
            t = line[2:].lstrip()
            c.append(line if t.startswith("#") else t)
        elif line.startswith("#"):
            flush()
            out.append(("c", sq(line)))
        elif not line.strip():
            flush()
        else:
            raise ValueError(f"bad line {line!r}")
    flush()
    return out


# ------------------------------------------------------------------ .ini

INI_TEXT = ["#", "[x]", "=", ":", "%S", "%", "&", "\\n", "é", "漢字", "\u2028", "\x85", "\x0b", "\u00a0x", '"', "'", "{", "a;b", "x=y", "rem"]


def ini_name(rng, section=False):
    n = rng.choice(["", "", "", "rem", "Rem", "REMOVE_", "é", "%"] + (["#", ";", "$"] if section else ["$", "!"])) + gen.ident(rng, 1, 6, "_-.") + rng.choice(["", "", "", " b", ".x", "#1", ";2", "é"])
    return n


def ini_line(rng):
    """One line of a value: no white space at its ends, no inline comment."""
    v = "".join(gen.plain(rng, 2) if rng.random() < 0.6 else rng.choice(INI_TEXT) + rng.choice(["", " "]) for _ in range(rng.choice([1, 1, 2, 3])))
    return re.sub(r"\s;", ",", v).strip() or "x"


def ini_value(rng):
    if rng.random() < 0.1 and rng.random() < 0.6:
        return ""
    v = ini_line(rng) if rng.random() < 0.95 else rng.choice(["", "\n"]) + "\n" + ini_line(rng)
    if rng.random() < 0.05:
        v = rng.choice([";x", ";", "#", "# c"])
    while rng.random() < 0.25:
        v += "\n" * rng.choice([1, 1, 2]) + ini_line(rng)
    return v


def ini_src_value(rng, v, nl):
    """Source lines of a value after the separator."""
    lines = v.split("\n")
    out = lines[0]
    for x in lines[1:]:
        out += nl + (rng.choice([" ", "  ", "\t", "        "]) + x if x else rng.choice(["", "", "  "]))
    return out


def ini_file(rng):
    nl = rng.choice(["\n", "\n", "\n", "\r\n"])
    cl = lambda: rng.choice(["# ", "; ", "#", ";", "#  "]) + ctext(rng, n=1).replace("\u2028", "") + nl  # noqa: E731
    strip = lambda x: x.lstrip("#; ")  # noqa: E731
    src, out, rc = rng.choice(["", "", nl]), [], []
    while rng.random() < 0.3:
        for _ in range(rng.randint(1, 2)):
            x = cl()
            src += x
            rc.append(strip(x))
        src += nl
    if rc:
        out.append(("c", sq(" ".join(rc))))
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        c = []
        if rng.random() < 0.3:
            x = cl()
            src += x
            c.append(strip(x))
        name = ini_name(rng, True)
        src += f"[{name}]"
        if rng.random() < 0.2:
            x = cl()
            src += " " + x
            c.append(strip(x))
        else:
            src += nl
        out.append(("s", name, sq(" ".join(c))))
        open_ = False  # the last line is part of a value
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            c = []
            r = rng.random()
            if r < 0.15:
                if open_:
                    src += nl
                for _ in range(rng.randint(1, 2)):
                    x = cl()
                    src += x
                    c.append(strip(x))
                src += nl * rng.choice([1, 1, 2])
                out.append(("c", sq(" ".join(c))))
                open_ = False
                continue
            if r < 0.4:
                for _ in range(rng.randint(1, 2)):
                    x = cl()
                    src += x
                    c.append(strip(x))
            k, v = ini_name(rng), ini_value(rng)
            body = ini_src_value(rng, v, nl)
            first, sep, rest = body.partition(nl)
            src += k + rng.choice(["=", "=", " = ", ":", ": ", " ="]) + first
            if ";" not in first and first and rng.random() < 0.12:
                x = gen.plain(rng, 2)
                src += rng.choice([" ;", "  ; "]) + x
                c.append(x)
            src += rng.choice(["", "", "", "  "]) + sep + rest + nl
            if rng.random() < 0.25:
                src += nl * rng.choice([1, 2])
            open_ = True
            out.append(("e", k, v, sq(" ".join(c))))
    return src, out


def ini_read(text):
    """(kind, ...) records of an .ini file written with = and #."""
    out, c, cur = [], [], None

    def close():
        nonlocal cur
        if cur is not None:
            out.append(("e", cur[0], cur[1].rstrip("\n"), cur[2]))
        cur = None

    seen = False
    rc = []
    for line in text.split("\n"):
        s = line.strip()
        if not s:
            if cur is not None:
                cur[1] += "\n"
            elif c:
                (out if seen else rc).append(("c", sq(" ".join(c))))
                c = []
        elif line[0].isspace():
            if cur is None:
                raise ValueError(f"bad continuation {line!r}")
            cur[1] += "\n" + s
            # blank lines were added as "\n" each
        elif line[0] == "#":
            close()
            c.append(line[1:])
        elif line[0] == "[":
            close()
            if not s.endswith("]"):
                raise ValueError(f"bad section {line!r}")
            out.append(("s", s[1:-1], sq(" ".join(c))))
            c = []
            seen = True
        else:
            close()
            k, eq, v = line.partition("=")
            if not eq or not seen:
                raise ValueError(f"bad line {line!r}")
            if re.search(r"^[^;]*\s;", v):
                raise ValueError(f"inline comment {line!r}")
            cur = [k, v.strip(), sq(" ".join(c))]
            c = []
    close()
    if c:
        (out if seen else rc).append(("c", sq(" ".join(c))))
    return ([("c", sq(" ".join(x[1] for x in rc)))] if rc else []) + out
