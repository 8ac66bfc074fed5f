"""XLIFF 1.2: document generator, and an independent reader on xml.etree."""
from __future__ import annotations

import re
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

from moz.l10n.model import CatchallKey, Comment, Expression, Markup, PatternMessage

from . import gen

NS = [f"urn:oasis:names:tc:xliff:document:1.{k}" for k in (0, 1, 2)]
XML = "http://www.w3.org/XML/1998/namespace"
EXT = "urn:example:ext"
CONTENT = {"source", "target", "seg-source"}
WORDS = ["Hello", "world", "été", "中文", "a", "it's", '"q"', "&", "<", ">", "]]>", "😀", "\u00a0", "--", "%", "100% x", "{0}", "$1"]
SPACE = [" ", "  ", "\n", "\n      ", "\t"]
FMT = ["%d", "%@", "%1$@", "%2$@", "%lld", "%.2f", "%%", "%1$d", "%s", "%lu", "%3$d", "%x", "%ld", "%10$@", "%12$d"]


def esc(s, attr=False):
    s = escape(s)
    if attr:
        s = s.replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;").replace("\r", "&#13;")
    return s.replace("\r", "&#13;")


def attributes(rng, kind, ext):
    pool = {
        "file": [("source-language", "en"), ("target-language", "fr"), ("datatype", "plaintext"), ("date", "2026-01-01"), ("xml:space", "preserve"), ("build-num", 'a"b<&')],
        "unit": [("xml:space", "preserve"), ("approved", "yes"), ("resname", "a b\nc"), ("translate", "no"), ("maxwidth", "10"), ("restype", "x")],
        "target": [("state", "translated"), ("xml:lang", "fr"), ("state-qualifier", "x-é")],
        "source": [("xml:lang", "en")],
        "note": [("from", "dev"), ("priority", "1"), ("annotates", "source"), ("xml:lang", "en")],
        "group": [("resname", "g"), ("datatype", "x"), ("restype", "x-g"), ("xml:space", "preserve")],
        "inline": [("ctype", "bold"), ("equiv-text", "<b>&"), ("xml:lang", "en"), ("clone", "no"), ("xml:space", "preserve")],
        "alt-trans": [("match-quality", "90%"), ("origin", "tm"), ("xml:lang", "de")],
    }[kind]
    p = {"inline": 0.15, "source": 0.1}.get(kind, 0.3)
    out = [x for x in pool if rng.random() < p]
    if ext and rng.random() < 0.1:
        out.append(("x:foo", "1 & 2"))
    return "".join(f' {k}="{esc(v, True)}"' for k, v in out)


def text(rng, n=4, ws=True):
    out = ""
    for _ in range(rng.randint(1, n)):
        out += rng.choice(SPACE) if ws and rng.random() < 0.35 else rng.choice(WORDS)
    return out


def raw(rng, s):
    """One of the ways to write character data in XML."""
    r = rng.random()
    if r < 0.07 and "]]>" not in s and "\r" not in s and s:
        return f"<![CDATA[{s}]]>"
    if r < 0.12:
        return "".join(f"&#{ord(c)};" if rng.random() < 0.3 else esc(c) for c in s)
    return esc(s)


def mixed(rng, ext, depth=2, xcode=False):
    out = ""
    for _ in range(rng.choice([1, 1, 1, 2, 3, 4] if depth == 2 else [0, 1, 1, 2])):
        r = rng.random()
        if r < 0.5:
            out += raw(rng, rng.choice(FMT) if xcode and rng.random() < 0.5 else text(rng))
        elif r < 0.55:
            out += "<!-- c -->"
        elif r < 0.6:
            out += rng.choice(SPACE)
        elif r < 0.75 or not depth:
            n = rng.choice(["x", "bx", "ex"])
            out += f'<{n} id="{rng.randint(1, 9)}"{attributes(rng, "inline", ext)}' + rng.choice(["/>", " />", f"></{n}>"])
        else:
            n = rng.choice(["g", "g", "g", "bpt", "ept", "ph", "it", "mrk", "sub"] + (["x:el"] if ext else []))
            out += f'<{n} id="{rng.randint(1, 9)}"{attributes(rng, "inline", ext)}>' + (mixed(rng, ext, depth - 1) if rng.random() < 0.8 else "") + f"</{n}>"
    return out


def note(rng, ext):
    r = rng.random()
    body = "" if r < 0.1 else esc(gen.comment(rng, "n", 3)) if r < 0.9 else " x" + esc(text(rng)) + "\n"
    return f"<note{attributes(rng, 'note', ext)}>{body}</note>" if body or rng.random() < 0.5 else f"<note{attributes(rng, 'note', ext)}/>"


def ident(rng, used):
    while True:
        i = rng.choice(["hi", "a.b", "x/y", "Save…", "line\nbreak", 'q"<&>', "a b", "é", "1", "[k] v", "note", "target", ""]) if rng.random() < 0.5 else gen.ident(rng)
        if rng.random() < 0.03 or i not in used:
            used.add(i)
            return i


def unit(rng, ext, used, xcode, pad):
    i = ident(rng, used)
    nl = pad if rng.random() < 0.9 else ""
    parts = [f"<source{attributes(rng, 'source', ext)}>{mixed(rng, ext, 2, xcode)}</source>" if rng.random() < 0.95 else "<source/>"]
    if rng.random() < 0.05 and not xcode:
        parts.append(f"<seg-source><mrk mtype=\"seg\" mid=\"1\">{mixed(rng, ext, 1)}</mrk> <mrk mtype=\"seg\" mid=\"2\">b</mrk></seg-source>")
    if rng.random() < 0.75:
        a = attributes(rng, "target", ext)
        parts.append(f"<target{a}>{mixed(rng, ext, 2, xcode)}</target>" if rng.random() < 0.9 else f"<target{a}/>")
    rest = [note(rng, ext) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))]
    if rng.random() < 0.1:
        rest.append(f"<alt-trans{attributes(rng, 'alt-trans', ext)}>{nl}" + (f"<source>{mixed(rng, ext, 1)}</source>" if rng.random() < 0.5 else "") + f"<target>{mixed(rng, ext, 1)}</target></alt-trans>")
    if rng.random() < 0.1:
        rest.append(f'<context-group purpose="location"><context context-type="sourcefile">a/b.ts</context>{nl}<context context-type="linenumber">{rng.randint(1, 99)}</context></context-group>')
    if rng.random() < 0.05:
        rest.append('<count-group name="w"><count count-type="total" unit="word">3</count></count-group>')
    if ext and rng.random() < 0.1:
        rest.append('<x:data x:k="v"><x:i>1</x:i><x:i>2</x:i></x:data>')
    if rng.random() < 0.05:
        rest.insert(rng.randint(0, len(rest)), "<!-- in unit -->")
    if rng.random() < 0.1:
        rng.shuffle(rest)
    parts += rest
    return f'<trans-unit id="{esc(i, True)}"{attributes(rng, "unit", ext)}>{nl}' + nl.join(parts) + f"{nl}</trans-unit>"


def binunit(rng, ext, used):
    i = ident(rng, used)
    return f'<bin-unit id="{esc(i, True)}" mime-type="image/png"><bin-source><external-file href="a.png"/></bin-source>' + ("<bin-target><external-file href=\"b.png\"/></bin-target>" if rng.random() < 0.5 else "") + (note(rng, ext) if rng.random() < 0.3 else "") + "</bin-unit>"


def items(rng, ext, used, xcode, depth, gids, pad):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 4]) if depth > 2 else rng.randint(0, 3)):
        r = rng.random()
        if r < 0.72:
            out.append(unit(rng, ext, used, xcode, pad + "  "))
        elif r < 0.77 and not xcode:
            out.append(binunit(rng, ext, used))
        elif r < (0.87 if depth > 2 else 0.8):
            out.append("<!-- " + gen.plain(rng) + " -->")
        elif depth:
            gid = gen.ident(rng)
            while gid in gids:
                gid = gen.ident(rng)
            gids.add(gid)
            meta = [note(rng, ext) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            if rng.random() < 0.2:
                meta.append('<context-group name="c"><context context-type="x">y</context></context-group>')
            out.append(f'<group id="{gid}"{attributes(rng, "group", ext)}>{pad}  ' + (pad + "  ").join(meta + items(rng, ext, set(), xcode, depth - 1, set(), pad + "  ")) + f"{pad}</group>")
    return out


XCODE_TOOL = '<tool tool-id="com.apple.dt.xcode" tool-name="Xcode" tool-version="15.2" build-num="15C500b"/>'
CATS = ["zero", "one", "two", "few", "many", "other"]


def ftext(rng, fmts, n=4):
    out = ""
    for _ in range(rng.randint(1, n)):
        r = rng.random()
        out += rng.choice(fmts) if r < 0.3 else rng.choice(SPACE[:3]) if r < 0.5 else rng.choice([w for w in WORDS if "%" not in w])
    return out


def xunit(rng, ident_, source, target, pad, notes=True, tattr=True):
    a = ' xml:space="preserve"' if rng.random() < 0.3 else ""
    s = f"<source>{esc(source)}</source>"
    t = "" if target is None else f"<target{attributes(rng, 'target', False) if tattr else ''}>{esc(target)}</target>"
    ns = "".join(pad + note(rng, False) for _ in range(rng.choice([0, 0, 1, 1, 2]) if notes else 0))
    return f'<trans-unit id="{esc(ident_, True)}"{a}>{pad}{s}{pad + t if t else ""}{ns}{pad[:-2]}</trans-unit>'


def stringsdict(rng, pad):
    """Body of an Xcode .stringsdict file: (xml, [(id, var, format or None, {cat: (source, target or None)})])."""
    out, want = [], []
    for k in range(rng.randint(1, 3)):
        i = rng.choice(["[Generic/Count]", "files", "a b", "é", "x/y"]) + str(k)
        var = rng.choice(["OTHERS", "count", "Ab_1", "zz"])
        fmt = None
        if rng.random() < 0.6:
            fmt = rng.choice([f"%#@{var}@", f"%#@{var}@ in 中", f"a & %#@{var}@ %1$@"])
        cats = [c for c in CATS if c == "other" or rng.random() < 0.4]
        if rng.random() < 0.1:
            rng.shuffle(cats)
        has_t = rng.random() < 0.8
        units = []
        val = {}
        for c in cats:
            s = ftext(rng, FMT) if rng.random() < 0.96 else ""
            t = (ftext(rng, FMT) if rng.random() < 0.95 else "") if has_t else None
            val[c] = (s, t)
            units.append(xunit(rng, f"/{i}:dict/{var}:dict/{c}:dict/:string", s, t, pad + "  "))
        ft = None
        if fmt:
            ft = (fmt if rng.random() < 0.6 else fmt.replace(" in ", " dans ")) if has_t else None
            u = xunit(rng, f"/{i}:dict/NSStringLocalizedFormatKey:dict/:string", fmt, ft, pad + "  ")
            units.insert(0 if rng.random() < 0.7 else len(units), u)
        out += units
        want.append((i, var, (fmt, ft), val))
    return pad.join(out), want


def xcstrings(rng, pad):
    """Body of an Xcode .xcstrings file: (xml, [(kind, id, base, {key: (source, target)}, placeholder)])."""
    out, want = [], []
    for k in range(rng.randint(1, 5)):
        i = rng.choice(["Hello, world!", "k", "a.b|c", "é", "%lld files", "x/y"]) + str(k)
        has_t = rng.random() < 0.8
        kind = rng.choice(["base", "base", "plural", "plural", "device", "sub"])
        pair = lambda f: (ftext(rng, f), ftext(rng, f) if has_t else None)  # noqa: E731
        if kind == "base":
            s, t = pair(FMT)
            out.append(xunit(rng, i, s, t, pad + "  "))
            want.append((kind, i, (s, t), {}, None))
            continue
        if kind == "device":
            keys = rng.sample(["ipad", "iphone", "mac", "applewatch"], rng.randint(1, 3)) + ["other"]
            f = FMT
        else:
            keys = [c for c in CATS if c == "other" or rng.random() < 0.4]
            ph = rng.choice(["%d", "%lld", "%@", "%1$lld", "%arg"] if kind == "sub" else ["%d", "%lld", "%1$d", "%u"])
            f = [ph, ph, "%2$@", "%%", "%3$d", "%10$@"]
            if kind == "plural" or ph == "%arg":
                f = [ph, ph, "%2$@", "%3$d", "%10$@"]
        val = {c: pair(f) for c in keys}
        base = None
        if kind == "sub":
            var = rng.choice(["strings", "n_1", "Files"])
            sub = rng.choice([f"%#@{var}@", f"%1$#@{var}@"]) if rng.random() < 0.9 else f"%2$#@{var}@"
            st = ftext(rng, ["%3$d"] if "2$" in sub else ["%2$@", "%3$d"], 2)
            base = (st + sub, rng.choice(["", "é ", " a\n"]) + sub + rng.choice(["", " z", "%3$@"]) if has_t else None)
            out.append(xunit(rng, i, base[0], base[1], pad + "  "))
            want.append((kind, i, base, val, (var, sub)))
            ids = [f"{i}|==|substitutions.{var}.plural.{c}" for c in keys]
        else:
            want.append((kind, i, None, val, None))
            ids = [f"{i}|==|{kind}.{c}" for c in keys]
        out += [xunit(rng, x, *val[c], pad + "  ") for x, c in zip(ids, keys)]
    return pad.join(out), want


def document(rng):
    ver = rng.choice([2, 2, 2, 1, 0])
    ns = rng.random() < 0.9
    ext = rng.random() < 0.3
    src = rng.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0"?>\n', ""])
    if rng.random() < 0.2:
        src += "<!-- " + gen.plain(rng) + " -->\n"
    src += f'<xliff version="1.{ver}"' + (f' xmlns="{NS[ver]}"' if ns else "") + (f' xmlns:x="{EXT}"' if ext else "")
    if rng.random() < 0.2:
        src += f' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="{NS[ver]} a.xsd"'
    src += ">\n"
    xplural = []
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        xcode = rng.random() < 0.35
        kind = rng.choice(["plain", "stringsdict", "xcstrings"]) if xcode else "plain"
        name = rng.choice(["a/b c.txt", "en.lproj/Localizable", "é&<", "x"]) + str(k) + {"plain": rng.choice([".strings", "", ".stringsdict" if not xcode else ".x"]), "stringsdict": ".stringsdict", "xcstrings": ".xcstrings"}[kind]
        if rng.random() < 0.15:
            src += f"  <!-- f{k} {gen.plain(rng)} -->\n"
        src += f'  <file original="{esc(name, True)}"{attributes(rng, "file", ext)}>\n'
        head = [XCODE_TOOL] if xcode else []
        if rng.random() < 0.3:
            head += rng.sample(['<tool tool-id="t2" tool-name="T"/>', '<skl><external-file href="s.skl"/></skl>', '<phase-group><phase phase-name="p" process-name="x"><note>ph</note></phase></phase-group>', "<note>head</note>", "<note>head2</note>", '<skl><internal-file form="x">a\n b</internal-file></skl>'], rng.randint(1, 3))
            if "".join(head).count("<skl>") > 1:
                head = [h for h in head if "internal" not in h]
        if head or rng.random() < 0.1:
            src += "    <header>" + "\n      ".join(head) + "</header>\n"
        pad = "\n      "
        if kind == "plain":
            inner = pad.join(items(rng, ext, set(), xcode, 4 if rng.random() < 0.3 else 3, set(), pad))
        elif kind == "stringsdict":
            inner, w = stringsdict(rng, pad)
            xplural.append((name, kind, w))
        else:
            inner, w = xcstrings(rng, pad)
            xplural.append((name, kind, w))
        if kind != "plain" and rng.random() < 0.2:
            inner = inner.replace("</trans-unit>", f"</trans-unit>{pad}<!-- {gen.plain(rng)} -->", 1)
        src += f"    <body>{pad if inner else ''}{inner}{pad if inner else ''}</body>\n  </file>\n"
    return src + "</xliff>\n", xplural


# --- reader -------------------------------------------------------------------------------------

def local(tag):
    m = re.match(r"\{(.*)\}(.*)", tag)
    return m[2] if m and m[1] in NS else tag


def tree(el, mixed_=False, trim=False):
    """(tag, attributes, content) with insignificant white space dropped outside of translatable content."""
    tag = local(el.tag)
    mixed_ = mixed_ or tag in CONTENT
    content = []

    def add(s):
        if s and (mixed_ or not s.isspace()):
            if content and isinstance(content[-1], str):
                content[-1] += s
            else:
                content.append(s)

    add(el.text)
    for c in el:
        content.append(tree(c, mixed_, trim))
        add(c.tail)
    return (tag, tuple(sorted((local(k), v) for k, v in el.attrib.items())), tuple(content))


def read(src):
    """{files: [...]} as plain data, in the order that XLIFF gives meaning to."""
    root = ET.fromstring(src.encode() if isinstance(src, str) else src)
    assert local(root.tag) == "xliff"
    files = []
    for f in root:
        assert local(f.tag) == "file", f.tag
        head = [tree(c) for c in f if local(c.tag) == "header"]
        body = [c for c in f if local(c.tag) == "body"]
        assert len(body) == 1
        files.append(dict(attrs=dict(f.attrib), header=head, **group(body[0])))
    return dict(attrs=dict(root.attrib), tag=root.tag, files=files)


def group(el):
    units, groups, meta = [], [], []
    for c in el:
        t = local(c.tag)
        if t in ("trans-unit", "bin-unit"):
            units.append(runit(c))
        elif t == "group":
            groups.append(dict(attrs=dict(c.attrib), **group(c)))
        else:
            meta.append(tree(c))
    return dict(units=units, groups=groups, meta=sorted(meta, key=lambda m: m[0]))


def runit(el):
    rest = [tree(c) for c in el if local(c.tag) not in ("source", "target")]
    one = {}
    for n in ("source", "target"):
        x = [c for c in el if local(c.tag) == n]
        assert len(x) < 2, f"{len(x)} <{n}>"
        one[n] = tree(x[0]) if x else None
    if one["target"] == ("target", (), ()):
        one["target"] = None  # an empty target without attributes says the same as none
    order = [local(c.tag) for c in el]
    ok = [x for x in order if x in ("source", "seg-source", "target")]
    return dict(tag=local(el.tag), attrs=dict(el.attrib), **one, rest=sorted(rest, key=lambda m: m[0]), content_first=order[:len(ok)] == ok or "seg-source" in ok)


def tree_text(content):
    return "".join(c if isinstance(c, str) else tree_text(c[2]) for c in content)


def tree_items(content):
    out = []
    for c in content:
        if isinstance(c, str):
            out.append(c)
            continue
        tag, attrs, inner = c
        if tag in ("x", "bx", "ex"):
            out.append(("standalone", tag, attrs))
            assert not inner
        else:
            out.append(("open", tag, attrs))
            out += tree_items(inner)
            out.append(("close", tag))
    return glue(out)


def glue(items_):
    out = []
    for x in items_:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def pat_items(pattern):
    out = []
    for x in pattern:
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, Expression):
            out.append(x.attributes["source"])
        elif x.kind == "close":
            out.append(("close", x.name))
        else:
            out.append((x.kind, x.name, tuple(sorted(x.options.items()))))
    return glue(out)
