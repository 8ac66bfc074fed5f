"""Single messages: parse_message and serialize_message agree, and every character of the source is accounted for."""
from __future__ import annotations

import re

from moz.l10n.formats import Format
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import Expression, Markup, PatternMessage, SelectMessage, VariableRef

from .. import android as A
from .. import ftl as F
from .. import gen, javaprops
from .. import jsonfmt as J
from .. import mf2ref as R
from .. import xliff as X
from ..core import Family, Skip
from ..model import canon, check_same, diff, norm

RULE = "distinct by format, options and source text"
ASSUMPTIONS = ["printf: position or (name), at most one flag, width and precision digits, length, one conversion letter; %% is a literal percent sign",
               "Xcode: conversions, lengths and positions of Apple's format specifiers, and %#@name@",
               "Fluent messages with several lines: meaning only, see known finding C02 message-indent",
               "Android: heuristic for quotes near tag-like text and the placeholder syntax of C06"]

PLAIN = ["plain_json", "dtd", "ini", "inc", "gettext"]

# --- printf -----------------------------------------------------------------------------------

LETTERS = [("s", "string"), ("S", "string"), ("c", "string"), ("d", "integer"), ("u", "integer"), ("x", "integer"), ("X", "integer"), ("o", "integer"), ("f", "number"),
           ("e", "number"), ("G", "number"), ("g", "number"), ("@", "printf"), ("b", "printf"), ("i", "printf")]


def printf_spec(rng):
    """(source, variable name, function) of one printf placeholder."""
    if rng.random() < 0.1:
        return ("%%", None, None)
    idx = name = ""
    r = rng.random()
    if r < 0.3:
        idx = str(rng.choice([1, 2, 3, 9, 10, 12, 20, 101]))
    elif r < 0.45:
        name = rng.choice(["name", "a.b", "x_1", "9", "Ünï"])
    flag = rng.choice(["", "", "", "-", "#", "+", " ", "0", ","])
    width = rng.choice(["", "", "", "5", "10", ".2", "8.3", "1"])
    if rng.random() < 0.12:
        conv, fn = rng.choice(["tY", "tB", "Td"]), "datetime"
    else:
        conv, fn = rng.choice(LETTERS)
        if fn in ("integer", "number", "string") and rng.random() < 0.3:
            conv = rng.choice(["h", "hh", "l", "ll", "L", "z", "j", "q"]) + conv
    src = "%" + (idx + "$" if idx else f"({name})" if name else "") + flag + width + conv
    return (src, name or "arg" + idx, fn)


XLETTERS = [("s", "str", "string"), ("S", "str", "string"), ("c", "str", "string"), ("C", "str", "string"), ("@", "arg", None), ("d", "int", "integer"), ("D", "int", "integer"),
            ("u", "int", "integer"), ("U", "int", "integer"), ("x", "int", "integer"), ("X", "int", "integer"), ("o", "int", "integer"), ("p", "int", "integer"),
            ("f", "num", "number"), ("e", "num", "number"), ("g", "num", "number"), ("a", "num", "number")]


def xcode_spec(rng):
    """(source, variable name, function) of one Xcode placeholder."""
    r = rng.random()
    if r < 0.1:
        return ("%%", None, None)
    idx = str(rng.choice([1, 2, 3, 9, 10, 12])) if rng.random() < 0.35 else ""
    pre = "%" + (idx + "$" if idx else "")
    if r < 0.2:
        n = rng.choice(["count", "num_1", "_x"])
        return (f"{pre}#@{n}@", n, "substitution")
    pre += rng.choice(["", "", "", "-", "#", "+", " ", "0", ","]) + rng.choice(["", "", "", "5", ".2", "8.3"])
    if r < 0.4:
        return (pre + rng.choice(["h", "hh", "l", "ll", "q", "z", "t", "j"]) + rng.choice("douxX"), "int" + idx, "integer")
    if r < 0.45:
        return (pre + "L" + rng.choice("aAeEfgG"), "num" + idx, "number")
    c, n, fn = rng.choice(XLETTERS)
    return (pre + c, n + idx, fn)


def spec_text(rng, spec, n=6):
    """Source text with placeholders, and its items."""
    src, items = "", []

    def add(t):
        nonlocal src
        src += t
        if items and items[-1][0] == "t":
            items[-1] = ("t", items[-1][1] + t)
        else:
            items.append(("t", t))

    for _ in range(rng.choice([0, 1, 1, 2, 3, n])):
        r = rng.random()
        if r < 0.45:
            if src.endswith("%"):
                add("!")
            s, v, fn = spec(rng)
            if items and items[-1][0] == "ph" and items[-1][3] == "datetime":
                add(" ")
            src += s
            items.append(("ph", s, v, fn))
        elif r < 0.6:
            if items and items[-1] == ("t", "%"):
                add("!")
            add(rng.choice(["%;", "100%.", "%!", "(%)", "5 %?", "% ;", "%1$;", "%(;", "%(a b) ", "%5;", "%é", "%$", "%-;", "%1;", "%("]) + rng.choice(["?", "]", "'"]))
        else:
            t = gen.text(rng, 3, exclude="%")
            if items and items[-1][0] == "ph" and items[-1][3] == "datetime":
                t = "." + t
            if t:
                add(t)
    return src, items


def items_of(pattern):
    out = []
    for x in pattern:
        if isinstance(x, str):
            assert x, pattern
            assert not (out and out[-1][0] == "t"), pattern
            out.append(("t", x))
        else:
            assert isinstance(x, Expression), x
            src = x.attributes.get("source")
            if isinstance(x.arg, VariableRef):
                out.append(("ph", src, x.arg.name, x.function))
            else:
                out.append(("ph", src, None, None if x.arg == "%" else x.arg))
    return out


def sources(pattern):
    return "".join(x if isinstance(x, str) else x.attributes["source"] for x in pattern)


BREAKS = re.compile(r"<[bh]r/?>\s|\s<(?:div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")


def view(fmt, msg):
    """What has to stay the same: for Fluent, literal text may become a quoted literal, and named arguments have no order.  For
    Android, text that has the form of a placeholder or tag is one, so both are seen as text."""
    if fmt not in (Format.fluent, Format.android):
        return norm(msg)

    def part(x):
        if not isinstance(x, Expression):
            return x
        if fmt == Format.android:
            if "translate" not in x.attributes:
                if isinstance(x.attributes.get("source"), str):
                    return x.attributes["source"]
                if x.function == "html":
                    return x.arg
            return x
        if isinstance(x.arg, str) and x.function is None and not x.attributes:
            return x.arg
        return Expression(x.arg, x.function, dict(sorted(x.options.items())), x.attributes)

    def pat(p):
        return [part(x) for x in p]

    if isinstance(msg, PatternMessage):
        return norm(PatternMessage(pat(msg.pattern), {k: part(v) for k, v in msg.declarations.items()}))
    return norm(SelectMessage({k: Expression(v.arg, v.function, dict(sorted(v.options.items())), v.attributes) for k, v in msg.declarations.items()}, msg.selectors, {k: pat(p) for k, p in msg.variants.items()}))


def again(ctx, fmt, msg, kind, *, meaning=None, **kw):
    """Serialize, parse again, compare; returns the text."""
    before = canon(msg)
    out = serialize_message(fmt, msg)
    ctx.check(canon(msg) == before, kind + "-mutated", "")
    back = parse_message(fmt, out, **kw)
    ctx.ev("roundtrips")
    a, b = (canon(view(fmt, m)) for m in (back, msg))
    ctx.check(a == b, kind + "-roundtrip", diff(a, b) or "", out=out, got=repr(back), want=repr(msg))
    ctx.check(serialize_message(fmt, back) == out, kind + "-unstable", "", out=out)
    return out


def fam_plain(ctx):
    rng = ctx.rng
    fmt = Format[PLAIN[ctx.index % len(PLAIN)]]
    printf = rng.random() < 0.7
    src, items = spec_text(rng, printf_spec)
    if rng.random() < 0.2:
        c = rng.choice(["\n", "\r\n", "\t", "\x01", "\u2028"])
        src += c
        if items and items[-1][0] == "t":
            items[-1] = ("t", items[-1][1] + c)
        else:
            items.append(("t", c))
    ctx.case((fmt.name, printf, src))
    msg = parse_message(fmt, src, printf_placeholders=printf)
    if printf:
        ctx.ev("printf_placeholders", sum(x[0] == "ph" for x in items))
        ctx.eq(items_of(msg.pattern), items, "printf-items", src=src)
    else:
        ctx.eq(msg.pattern, [src] if src else [], "plain-text", src=src)
    ctx.eq(sources(msg.pattern), src, "plain-conservation", src=src)
    out = again(ctx, fmt, msg, "plain", printf_placeholders=printf)
    ctx.eq(out, src, "plain-text-out", src=src)


def prop_escape(rng, s):
    out = ""
    for c in s:
        r = rng.random()
        if c == "\\":
            out += "\\\\"
        elif c in "\n\r\t\f" and (r < 0.7 or c in "\r\n"):
            out += "\\" + {"\n": "n", "\r": "r", "\t": "t", "\f": "f"}[c]
        elif r < 0.08 and ord(c) < 0x10000:
            out += "\\u%04x" % ord(c)
        elif r < 0.12 and not c.isalnum() and c.isprintable():
            out += "\\" + c
        else:
            out += c
            if r > 0.97:
                out += "\\\n   "
    return out


def fam_properties(ctx):
    rng = ctx.rng
    printf = rng.random() < 0.6
    text, items = spec_text(rng, printf_spec)
    if not printf and rng.random() < 0.4:
        text += rng.choice(["\n", "\t", "\r", "\f", " ", "\u2028", "\x00"])
    src = prop_escape(rng, text)
    try:
        pairs = javaprops.pairs("k=" + src)
    except javaprops.Malformed:
        raise Skip()
    ctx.case((printf, src))
    if len(pairs) != 1 or pairs[0][0] != "k":
        raise Skip()
    val = pairs[0][1]

    lead = len(src) - len(src.lstrip(" \t\f"))
    if src and not src.strip(" \t\f"):  # documented by a test: only white space is not a value
        try:
            parse_message(Format.properties, src)
        except ValueError:
            return
        ctx.fail("properties-blank", "", src=src)
    ctx.ev("java_values")
    msg = parse_message(Format.properties, src, printf_placeholders=printf)
    ctx.eq(sources(msg.pattern), val, "properties-conservation", src=src)
    if printf and val == text and not lead:
        ctx.ev("printf_placeholders", sum(x[0] == "ph" for x in items))
        ctx.eq(items_of(msg.pattern), items, "properties-printf-items", src=src)
    out = again(ctx, Format.properties, msg, "properties", printf_placeholders=printf)
    ctx.check("\n" not in out and "\r" not in out, "properties-line", "", out=out)
    ctx.eq([v for _, v in javaprops.pairs("k = " + out)], [val], "properties-java-out", src=src, out=out)


def fam_webext(ctx):
    rng = ctx.rng
    names = gen.uniq(rng, lambda: J.ph_name(rng), rng.choice([0, 1, 2, 3]), key=J.canon_name)
    src = J.wx_pattern(rng, names)
    ph = {n: {"content": rng.choice(J.PH_CONTENT), **({"example": rng.choice(["x", "é"])} if rng.random() < 0.4 else {})} for n in names}
    for r in J.wx_refs(src):
        if r.lower() not in {k.lower() for k in ph}:
            ph[r] = {"content": rng.choice(J.PH_CONTENT)}
    if len({J.canon_name(k) for k in ph}) < len(ph):
        raise Skip()
    ctx.case((src, repr(ph)))
    want = J.wx_meaning(src, ph)
    msg = parse_message(Format.webext, src, webext_placeholders=ph)
    ctx.ev("webext_placeholders", sum(not isinstance(x, str) for x in want))
    ctx.eq(J.wx_view(msg), want, "webext-items", src=src, ph=ph)
    out = serialize_message(Format.webext, msg)
    back = parse_message(Format.webext, out, webext_placeholders=ph)
    ctx.ev("roundtrips")
    check_same(ctx, norm(back), norm(msg), "webext-roundtrip", src=src, out=out, ph=ph)
    ctx.eq(J.wx_meaning(out, ph), want, "webext-meaning-out", src=src, out=out, ph=ph)
    used = J.wx_refs(src)
    if used and rng.random() < 0.3:
        drop = rng.choice(used).lower()
        try:
            parse_message(Format.webext, src, webext_placeholders={k: v for k, v in ph.items() if k.lower() != drop})
        except ValueError:
            ctx.ev("missing_refused")
        else:
            ctx.fail("webext-missing-accepted", drop, src=src)


def fam_xliff(ctx):
    rng = ctx.rng
    xcode = rng.random() < 0.6
    flat_items = None
    if xcode and rng.random() < 0.7:
        text, flat_items = spec_text(rng, xcode_spec)
        src = X.raw(rng, text) if text and not re.search("[\x00-\x08\x0b\x0c\x0e-\x1f\r\ufffe]", text) else X.esc(re.sub("[\x00-\x1f]", "", text))
        if X.tree_text(X.tree(X.ET.fromstring(f"<target>{src}</target>"))[2]) != text:
            flat_items = None
    else:
        src = X.mixed(rng, False, 2, xcode)
    ctx.case((xcode, src))
    tree = X.tree(X.ET.fromstring(f"<target>{src}</target>"), True)
    want = X.tree_items(tree[2])
    msg = parse_message(Format.xliff, src, xliff_is_xcode=xcode)

    def keep(p):
        return [x if isinstance(x, (str, Markup)) else Expression("", None, attributes={"source": x.attributes["source"]}) for x in p]

    ctx.eq(X.pat_items(keep(msg.pattern)), want, "xliff-items", src=src)
    ctx.ev("xliff_items", len(want))
    if flat_items is not None:
        ctx.ev("xcode_placeholders", sum(x[0] == "ph" for x in flat_items))
        ctx.eq(items_of(msg.pattern), flat_items, "xcode-items", src=src)
        for x in msg.pattern:
            if isinstance(x, Expression) and isinstance(x.arg, VariableRef):
                m = re.match(r"%([0-9]+)\$", x.attributes["source"])
                key = "substitution" if x.function == "substitution" else "index"
                ctx.eq(x.attributes.get(key), m[1] if m else True if key == "substitution" else None, "xcode-index", src=src)
    elif not xcode:
        ctx.check(not any(isinstance(x, Expression) for x in msg.pattern), "xliff-placeholder", "", src=src)
    out = again(ctx, Format.xliff, msg, "xliff", xliff_is_xcode=xcode)
    ctx.eq(X.tree_items(X.tree(X.ET.fromstring(f"<target>{out}</target>"), True)[2]), want, "xliff-items-out", src=src, out=out)


def fam_android(ctx):
    rng = ctx.rng
    s = A.string(rng)
    xml = s.xml.replace("<xliff:g", f'<xliff:g xmlns:xliff="{A.XLIFF}"')
    ctx.case(xml)
    msg = parse_message(Format.android, xml, android_ascii_spaces=False)
    ctx.ev("android_items", len(s.items))
    ctx.eq(A.view(msg.pattern), s.items, "android-items", src=xml)
    again(ctx, Format.android, msg, "android")


def fam_fluent(ctx):
    rng = ctx.rng
    g = F.G(rng, 2, indents=False)
    pat = g.w_pattern(g.pattern(), 4)
    ref = F.items(F.parse("key =" + pat + "\n"))
    if len(ref) != 1 or ref[0][0] != "entry":
        raise Skip()
    ctx.case(pat)
    p = ref[0][2]
    src = pat.strip(" \n")
    if "\n" in src:  # the pattern as its own first line
        src = serialize_message(Format.fluent, parse_message(Format.fluent, src))
    msg = parse_message(Format.fluent, src)
    es = F.envs(rng, F.ftl_selectors(p))
    if "\n" not in pat.strip(" \n"):
        for env in es:
            ctx.ev("fluent_evaluations")
            ctx.eq(F.m_eval(msg, env), F.ftl_eval(p, env), "fluent-meaning", env=repr(env), src=src)
    again(ctx, Format.fluent, msg, "fluent")


def fam_mf2(ctx):
    rng = ctx.rng
    m = R.message(rng, joined=True)
    src = R.Writer(rng, rng.choice([0, 0.3])).message(m)
    ctx.case(src)
    try:
        ref = R.read(src)
    except R.DontCare:
        raise Skip()
    msg = parse_message(Format.mf2, src)
    ctx.ev("mf2_models")
    ctx.eq(canon(norm(msg), catchall=False), canon(norm(ref), catchall=False), "mf2-model", src=src)
    again(ctx, Format.mf2, msg, "mf2")


# --- anything ---------------------------------------------------------------------------------

BITS = {
    "android": ["%s", "%1$s", "%%", "%n", "%", "\\", '"', "'", "\\n", "\\u00e9", "\\u0022", "\\u", "&lt;b>", "&lt;br>", "&lt;p>", "&amp;", "&foo;", "<b>", "</b>", "<b/>", "<![CDATA[<i>x</i>]]>", " ", "  ", "\n",
                "@", "?", "@string/x", "\\@", "\\'", '\\"', "&gt;", "<!-- c -->", "&#160;", "\u00a0", "%<s", "%1$", "{", "é", "a"],
    "fluent": ["{", "}", "{ $x }", '{ "a" }', '{ "" }', "{ -t }", "{ m.a }", "{ F() }", "{ $x ->\n [a] b\n*[c] d\n }", "\n", "\n\n", " ", "[", "*", ".", ".a =", "#", "\\", '"', "{ 5 }", "é", "\u2028", "=", "a", "b c"],
    "mf2": ["{", "}", "{{", "}}", "|", "\\", "\\\\", "\\{", "{$x}", "{:f}", "{#b}", "{/b}", "{|a|}", ".", ".local $a = {1}", ".input {$x :number}", ".match $x", "*", "1", " ", "\n", "é", "@a", "\u2068", "a"],
    "properties": ["\\", "\\n", "\\u0041", "\\u", "\n", "\\\n", " ", "=", ":", "#", "!", "%s", "é", "\t", "\f", "\\ ", "a", "\r", "\\\r\n", "\x00"],
    "webext": ["$", "$$", "$1", "$9", "$0", "$a$", "$A$", "$b", "$a", " ", "a", "1", "é", "\n", "{", "$$a$", "$a$$"],
    "xliff": ["<g id='1'>", "</g>", "<x id='1'/>", "<ph/>", "&lt;", "&amp;", "&gt;", "&", "<", "%@", "%1$d", "%#@n@", "%", "]]>", "<![CDATA[a]]>", " ", "\n", "<!-- c -->", "é", "a", "&#xD;", "<e xmlns='u:x'/>", "<?pi?>"],
    "plain_json": ["%s", "%", "%%", "\\", '"', "\n", "{", "%(a)s", "%1$d", "\x00", "é", "a"],
}
OTHER = {"a": {"content": "$1"}, "b": {"content": "x", "example": "y"}}


def fam_any(ctx):
    """Any text: either refused with an error, or kept over a round trip."""
    rng = ctx.rng
    names = list(BITS)
    name = names[ctx.index % len(names)]
    fmt = Format[name]
    n = rng.choice([1, 2, 3, 4, 5, 8])
    src = "".join(rng.choice(BITS[name]) if rng.random() < 0.85 else gen.text(rng, 2, ctrl=rng.random() < 0.1) for _ in range(n))
    kw = {}
    if name == "webext":
        kw = dict(webext_placeholders=OTHER)
    elif name == "xliff":
        kw = dict(xliff_is_xcode=rng.random() < 0.5)
    elif name == "android":
        kw = dict(android_ascii_spaces=rng.random() < 0.5)
    elif name in ("properties", "plain_json"):
        kw = dict(printf_placeholders=rng.random() < 0.5)
    ctx.case((name, src, repr(kw)))
    try:
        msg = parse_message(fmt, src, **kw)
    except (ValueError, SyntaxError):
        ctx.ev("refused")
        return
    ctx.ev("accepted")
    ctx.ev("accepted_" + name)
    if name == "android" and "%<" in "".join(x if isinstance(x, str) else str(x.arg) for x in norm(msg).pattern if not isinstance(x, Markup)):
        return  # a placeholder with a relative index, for Java
    if name == "android" and any("source" in x.attributes and ("  " in x.attributes["source"] or not A.PRINTF_RE.fullmatch(x.attributes["source"])) for x in msg.pattern if isinstance(x, Expression)):
        return  # not a format specifier for Java
    if name == "android" and any(BREAKS.search(x) for x in view(fmt, msg).pattern if isinstance(x, str)):
        return  # a line break and a space are the same around these tags
    if name in ("plain_json",):
        ctx.eq(sources(msg.pattern), src, "any-conservation", src=src)
    again(ctx, fmt, msg, "any-" + name, **kw)


FAMILIES = [
    Family("plain", fam_plain, 4000, 150000, need=["printf_placeholders", "roundtrips"]),
    Family("properties", fam_properties, 4000, 150000, need=["printf_placeholders", "java_values", "roundtrips"]),
    Family("webext", fam_webext, 4000, 150000, need=["webext_placeholders", "missing_refused", "roundtrips"]),
    Family("xliff", fam_xliff, 4000, 150000, need=["xliff_items", "xcode_placeholders", "roundtrips"]),
    Family("android", fam_android, 3000, 100000, need=["android_items", "roundtrips"]),
    Family("fluent", fam_fluent, 2000, 60000, need=["fluent_evaluations", "roundtrips"]),
    Family("mf2", fam_mf2, 2000, 60000, need=["mf2_models", "roundtrips"]),
    Family("any", fam_any, 14000, 400000, need=["accepted_android", "accepted_fluent", "accepted_mf2", "accepted_properties", "accepted_webext", "accepted_xliff", "accepted_plain_json", "refused"]),
]
