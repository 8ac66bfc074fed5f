"""Android strings.xml: document generator with known contents, and a reference text evaluator."""
from __future__ import annotations

import re
from xml.sax.saxutils import escape

from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, PatternMessage, SelectMessage, VariableRef

from . import gen

XLIFF = "urn:oasis:names:tc:xliff:document:1.2"
TOOLS = "http://schemas.android.com/tools"
PRINTF = ["%s", "%d", "%1$s", "%2$d", "%1$,d", "%.2f", "%1$.1f%%", "%%", "%n", "%10$s", "%12$d", "%-5s", "%05d", "%+,d", "%x", "%c", "%b", "%1$tY", "%tB", "%e", "%S", "%1$-10.3f", "%B", "%C", "%h", "%H", "%o", "%X", "%a", "%2$A", "%E", "%f", "%g", "%G", "%TY"]
PRINTF_RE = re.compile(r"%(?:[1-9][0-9]*\$)?[-#+ 0,(]*[0-9]*(?:\.[0-9]+)?(?:[tT][A-Za-z]|[a-zA-Z%])")
ESC = [("\\n", "\n"), ("\\t", "\t"), ("\\'", "'"), ('\\"', '"'), ("\\\\", "\\"), ("\\@", "@"), ("\\?", "?"), ("\\#", "#"), ("\\u00e9", "é"), ("\\u0020", " "), ("\\u2026", "…"),
       ("\\ud83d\\ude00", "😀"), ("\\u00A0", "\u00a0"), ("\\u000a", "\n"), ("\\u0022", '"'), ("\\u005c", "\\"), ("\\u00C9", "É"), ("\\uD83D\\uDE00", "😀"), ("\\u00dF", "ß")]
WS = [" ", " ", " ", "  ", "\n    ", "\t", " \n "]
PLAIN = ["Hello", "world", "a", "I", "été", "中文", "x=y", "#1", "a@b", "what?", "(c)", "{0}", "&", "&amp;", ";", ".", ",", "—", "]]", "1", "9", "n", "u0041", "😀", "@", "?", "/", ":", "it’s"]
TAGS = ["<b>", "</b>", "<i>", "</i>", '<a href="http://x.y/?a=b&c">', "</a>", "<span class='q'>", "<u>"]
BLOCK = ["<p>", "</p>", "<br>", "<br/>", "<li>", "<ul>", "<h1>", "<div>"]


class Str:
    """One string: XML source and expected items."""

    def __init__(self, xml, items):
        self.xml, self.items = xml, items


def join(items):
    out = []
    for x in items:
        if x[0] == "t":
            if not x[1]:
                continue
            if out and out[-1][0] == "t":
                out[-1] = ("t", out[-1][1] + x[1])
                continue
        out.append(x)
    return out


def text_segment(rng, n, tags=False, quotes=True):
    """Android-level raw text, as (raw, item) tokens; item None for white space."""
    toks = []
    tagged = tags and rng.random() < 0.5
    for _ in range(rng.randint(1, n)):
        r = rng.random()
        if r < 0.35:
            w = rng.choice(PLAIN)
            toks.append((w, ("t", w)))
        elif r < 0.6:
            toks.append((rng.choice(WS), None))
        elif r < 0.72:
            raw, ch = rng.choice(ESC)
            toks.append((raw, ("t", ch)))
        elif r < 0.75:
            c = rng.choice(["s", "d", "tY", "-5s", ".2f"])
            toks.append(("%<" + c, ("rel", c)))
        elif r < 0.85:
            p = rng.choice(PRINTF)
            for m in re.finditer(r"%(?:[1-9][0-9]*\$)?[^a-zA-Z%]*(?:[tT][A-Za-z]|[a-zA-Z%])", p):
                toks.append((m[0], ("ph", m[0])))
        elif tagged:
            t = rng.choice(TAGS + BLOCK)
            toks.append((t, ("html", t)))
        elif quotes and not tags and r < 0.95:
            body = rng.choice(["", "a  b", " x", "y ", "it's", "1\n  2", "a\tb", "  "])
            toks.append(('"' + body + '"', ("t", body)))
    return toks


def settle(segs):
    """Expected items of a list of segments; a segment is a token list or one structural item."""
    flat = []
    for k, seg in enumerate(segs):
        if isinstance(seg, tuple):
            flat.append(seg)
            continue
        out = []
        for raw, item in seg:
            if item is None:
                if not (out and out[-1] == "ws"):
                    out.append("ws")
            else:
                out.append(item)
        if k == 0:
            while out and out[0] == "ws":
                out.pop(0)
        if k == len(segs) - 1:
            while out and out[-1] == "ws":
                out.pop()
        flat += breaks(out)
    return join(relative(flat))


def breaks(items):
    """White space before a block tag and after a line break is a newline."""
    out = []
    for x in items:
        block = x[0] == "html" and re.match(r"<(div|h[1-6r]|p|d[dt]|li|/?[dou]l)\b", x[1])
        if x == "ws":
            x = ("t", "\n") if out and out[-1][0] == "html" and re.fullmatch("<[bh]r/?>", out[-1][1]) else ("t", " ", "ws")
        elif block and out and out[-1] == ("t", " ", "ws"):
            out[-1] = ("t", "\n")
        elif block and out and out[-1][0] == "t" and out[-1][1].endswith(" ") or (
                x[0] == "t" and x[1].startswith(" ") and out and out[-1][0] == "html" and re.fullmatch("<[bh]r/?>", out[-1][1])):
            raise Dangling  # an escaped space there is also taken for white space: a known finding of C28
        out.append(x)
    return [x[:2] if x[0] == "t" else x for x in out]


class Dangling(Exception):
    """Not a string that has one meaning."""


def relative(items):
    """%<s is for the argument of the placeholder before it."""
    out, prev = [], None
    for x in items:
        if x[0] == "rel":
            if prev is None:
                raise Dangling
            x = ("ph", f"%{prev}{x[1]}" if prev else f"%<{x[1]}")
        elif x[0] in ("ph", "g"):
            for m in re.finditer(r"%([1-9][0-9]*\$)?[^a-zA-Z%]*([a-zA-Z%])", x[1] if x[0] == "ph" else x[2]):
                if m[2] not in "%n":
                    prev = m[1] or ""
        out.append(x)
    return out


def ok_tokens(toks):
    """No accidental tokens across boundaries, nothing whose reading is a documented heuristic."""
    raw = "".join(r for r, _ in toks)
    # accidental printf / escapes across token boundaries
    pos, spans = 0, []
    for r, item in toks:
        if item and item[0] in ("ph", "rel"):
            spans.append((pos, pos + len(r)))
        pos += len(r)
    for m in re.finditer(r"%", raw):
        if not any(a <= m.start() < b for a, b in spans):
            return False
    return True


def xml_text(rng, raw, cdata=True):
    if cdata and raw and rng.random() < 0.15:
        return "<![CDATA[" + raw.replace("]]>", "]]]]><![CDATA[>") + "]]>"
    out = ""
    for ch in raw:
        if ch in "&<":
            out += {"&": "&amp;", "<": "&lt;"}[ch]
        elif ch == ">":
            out += rng.choice(["&gt;", "&gt;", ">"]) if not out.endswith("]]") else "&gt;"
        elif ch not in " \n\t" and rng.random() < 0.01:
            out += f"&#{ord(ch)};" if rng.random() < 0.5 else f"&#x{ord(ch):x};"
        else:
            out += ch
    return out


def string(rng, depth=2, entities=("foo", "bar"), tags=None, plain=False):
    if not plain and rng.random() < 0.04:
        ref = rng.choice(["@string/foo", "@android:string/ok", "?attr/x", "@com:string/a_b"]) if rng.random() < 0.9 else "?android:attr/q"
        return Str(ref, [("ref", ref)])
    tags = rng.random() < 0.3 if tags is None else tags
    segs, xml = [], []

    def add_text():
        for _ in range(20):
            t = text_segment(rng, 5, tags=tags)
            if ok_tokens(t) and not any((r == "%" or r == "\\") for r, _ in t):
                break
        else:
            t = [("x", ("t", "x"))]
        raw = "".join(r for r, _ in t)
        if tags and '"' in re.sub(r"\\.", "", raw) and not re.search("<.+>", raw):
            t = [("x", ("t", "x"))]
        segs.append(t)
        xml.append(xml_text(rng, "".join(r for r, _ in t)) if rng.random() < 0.97 else xml_text(rng, "".join(r for r, _ in t)) + "<!-- no -->")

    def nest(d):
        add_text()
        if plain:
            return
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            r = rng.random()
            if r < 0.3 and entities:
                n = rng.choice(entities)
                segs.append(("ent", n))
                xml.append(f"&{n};")
            elif r < 0.6:
                g(d)
            elif d > 0:
                n, o = rng.choice([("b", {}), ("i", {}), ("br", {}), ("a", {"href": 'http://é.x/?a=b&c="<'}), ("font", {"color": "#fff"}), ("annotation", {"name": "x y"}), ("li", {}), ("input", {"checked": "checked"})])
                segs.append(("open", n, o))
                xml.append(f"<{n}" + "".join(f' {k}="{escape(v, {chr(34): "&quot;"})}"' for k, v in o.items()) + ">")
                if n == "br" or rng.random() < 0.1:
                    pass
                else:
                    nest(d - 1)
                segs.append(("close", n))
                xml.append(f"</{n}>")
            if rng.random() < 0.8:
                add_text()

    def g(d):
        attrs = {}
        if rng.random() < 0.6:
            attrs["id"] = rng.choice(["name", "count", "x1", "a b", "1st"])
        if rng.random() < 0.4:
            attrs["example"] = rng.choice(["42", "Bob & Al", "<x>"])
        head = "<xliff:g" + "".join(f' {k}="{escape(v, {chr(34): "&quot;"})}"' for k, v in attrs.items()) + ">"
        raw, val = rng.choice([("%s", "%s"), ("%1$d", "%1$d"), ("Firefox", "Firefox"), ("it\\'s", "it's"), ("a\\nb", "a\nb"), ("{x}", "{x}"), ("http://x.y", "http://x.y"), ("a b", "a b"), ("5\\u00a0MB", "5\u00a0MB"), ("\\u00C9t\\u00e9", "Été"), ("\\\\", "\\")])
        src = "id" in attrs or raw.startswith(("%", "{"))
        segs.append(("g", attrs, raw if src else val, src))
        xml.append(head + escape(raw) + "</xliff:g>")

    nest(depth)
    # structural neighbours: text segments next to each other are one text for Android
    merged = []
    for s in segs:
        if isinstance(s, list) and merged and isinstance(merged[-1], list):
            merged[-1] = merged[-1] + s
        else:
            merged.append(s)
    if any(isinstance(s, list) and not ok_tokens(s) for s in merged):
        return string(rng, depth, entities, tags, plain)
    for s in merged:  # quotes next to tag-like text are read by a documented heuristic
        if isinstance(s, list):
            raw = "".join(r for r, _ in s)
            if '"' in re.sub(r"\\.", "", raw) and ("<" in raw or "\\u003c" in raw):
                if not all(it and it[0] == "html" for r, it in s if '"' in r.replace('\\"', "")):
                    return string(rng, depth, entities, tags, plain)
    try:
        items = settle(merged)
    except Dangling:
        return string(rng, depth, entities, tags, plain)
    if len(merged) == 1 and isinstance(merged[0], list) and re.fullmatch(r"@(?:\w+:)?\w+/\w+|\?(?:\w+:)?(\w+/)?\w+", "".join(r for r, _ in merged[0])):
        return string(rng, depth, entities, tags, plain)
    return Str("".join(xml), items)


def view(msg_pattern):
    """The library's pattern as the same kind of items."""
    out = []
    for x in msg_pattern:
        if isinstance(x, str):
            out.append(("t", x))
        elif isinstance(x, Markup):
            out.append((x.kind, x.name, x.options) if x.kind != "close" else ("close", x.name))
        elif x.attributes.get("translate") == "no":
            src = "source" in x.attributes
            out.append(("g", x.options, x.attributes["source"] if src else x.arg, isinstance(x.arg, VariableRef)))
        elif x.function == "entity":
            out.append(("ent", x.arg.name))
        elif x.function == "reference":
            out.append(("ref", x.arg))
        elif x.function == "html":
            out.append(("html", x.arg))
        else:
            out.append(("ph", x.attributes.get("source")))
    return join(out)


def aapt(raw: str) -> str:
    """Text of an Android string without elements: trims and collapses white space, handles quotes and escapes."""
    s = raw.strip()
    out, quoted, ws, i = [], False, False, 0
    while i < len(s):
        c = s[i]
        if not quoted and c.isspace():
            if not ws:
                out.append(" ")
            ws = True
            i += 1
            continue
        ws = False
        if c == "\\" and i + 1 < len(s):
            n = s[i + 1]
            if n == "u" and re.match(r"[0-9a-fA-F]{4}", s[i + 2:i + 6]):
                out.append(chr(int(s[i + 2:i + 6], 16)))
                i += 6
                continue
            out.append({"n": "\n", "t": "\t"}.get(n, n))
            i += 2
            continue
        if c == '"':
            quoted = not quoted
        else:
            out.append(c)
        i += 1
    return "".join(out).encode("utf-16", "surrogatepass").decode("utf-16", "replace")


NAMES = ["app_name", "a", "title", "msg.one", "b-2", "_x", "été", "Foo", "long_name_here", "q9", "zz", "n"]


def comment(rng):
    return gen.comment(rng, "c", 3)


def xml_comment(rng, text):
    if "\n" in text:
        return "<!--\n" + "\n".join("    " + x for x in text.split("\n")) + "\n  -->"
    return rng.choice([f"<!-- {text} -->", f"<!--{text}-->", f"<!--   {text}\n-->"])


def document(rng, plain=False, comments=True):
    """(source, expected): expected is a list of ("comment", text) and ("entry", id, comment, meta, value);
    value is an items list or {category: items}."""
    ents = {}
    if rng.random() < 0.3:
        ents = {"foo": [("t", "Foo")], "bar": [("t", 'B & "q" '), ("ent", "foo"), ("t", " 100%")]}
        if rng.random() < 0.3:
            ents["lone"] = []
    body, want = [], []
    refs = tuple(ents)[:2]
    names = rng.sample(NAMES, rng.randint(0 if rng.random() < 0.1 else 1, 5))
    lines = []
    pending = []
    cm = lambda: rng.random() < 0.35 and comments  # noqa: E731

    def attrs(tag):
        meta, src = [], ""
        for k, c, v in [("translatable", None, "false"), ("formatted", None, "false"), ("product", None, "tablet"), ("tools:ignore", f"{{{TOOLS}}}ignore", 'Typo&"<')]:
            if rng.random() < 0.07:
                meta.append((c or k, v))
                src += f' {k}="{escape(v, {chr(34): "&quot;"})}"'
        return meta, src

    for name in names:
        if cm() and rng.random() < 0.5:
            t = comment(rng)
            lines.append("  " + xml_comment(rng, t) + "\n\n")
            want.append(("comment", t))
        pending = []
        while cm() and len(pending) < 2:
            t = comment(rng)
            pending.append(t)
            lines.append("  " + xml_comment(rng, t) + "\n")
        r = rng.random()
        if r < 0.65:
            s = string(rng, entities=refs, plain=plain)
            meta, src = attrs("string")
            lines.append(f'  <string name="{name}"{src}>{s.xml}</string>\n' if s.xml or rng.random() < 0.5 else f'  <string name="{name}"{src}/>\n')
            want.append(("entry", (name,), "\n\n".join(pending), meta, s.items))
        elif r < 0.85:
            meta, src = attrs("plurals")
            cats = rng.sample(["zero", "one", "two", "few", "many"], rng.randint(0, 3)) + (["other"] if rng.random() < 0.9 else [])
            cats = cats or ["one"]
            val, out = {}, ""
            for c in cats:
                if cm() and rng.random() < 0.3:
                    t = gen.plain(rng)
                    out += f"    <!-- {t} -->\n"
                    pending.append(t if not val else f"{c}: {t}")
                s = string(rng, entities=refs, plain=plain)
                odd = ' tools:ignore="X"' if rng.random() < 0.03 else ""  # not supported, and dropped with a warning
                out += f'    <item quantity="{c}"{odd}>{s.xml}</item>\n'
                val[c] = s.items
            lines.append(f'  <plurals name="{name}"{src}>\n{out}  </plurals>\n')
            want.append(("entry", (name,), "\n\n".join(pending), meta, val))
        else:
            meta, src = attrs("string-array")
            out = ""
            for k in range(rng.randint(1, 3)):
                if k and cm() and rng.random() < 0.5:
                    t = gen.plain(rng)
                    out += f"    <!-- {t} -->\n"
                    pending.append(t)
                s = string(rng, entities=refs, plain=plain)
                out += f"    <item>{s.xml}</item>\n"
                want.append(("entry", (name, str(k)), "\n\n".join(pending), meta, s.items))
                pending = []
            lines.append(f'  <string-array name="{name}"{src}>\n{out}  </string-array>\n')
    if cm() and rng.random() < 0.4:
        t = comment(rng)
        lines.append("  " + xml_comment(rng, t) + "\n")
        want.append(("comment", t))
    src = rng.choice(['<?xml version="1.0" encoding="utf-8"?>\n', '<?xml version="1.0" encoding="utf-8"?>\n', ""])
    rc = comment(rng) if cm() else ""
    if rc:
        src += xml_comment(rng, rc) + "\n"
    if ents:
        src += "<!DOCTYPE resources [\n"
        for n, items in ents.items():
            v = "".join(f"&{x[1]};" if x[0] == "ent" else x[1].replace("&", "&amp;").replace('"', "&quot;").replace("%", "&#37;") for x in items)
            src += f'  <!ENTITY {n} "{v}">\n'
        src += "]>\n"
    rmeta = [("tools:locale", f"{{{TOOLS}}}locale", "en")] if rng.random() < 0.1 else []
    src += f'<resources xmlns:xliff="{XLIFF}" xmlns:tools="{TOOLS}"' + "".join(f' {k}="{v}"' for k, _, v in rmeta) + ">\n" + "".join(lines) + "</resources>\n"
    return src, dict(entries=want, comment=rc, entities=ents, meta=[(c, v) for _, c, v in rmeta])


def lib_view(res):
    """The library's resource in the same form as document()'s expectation."""
    ents, out = {}, []
    for s in res.sections:
        if s.id == ("!ENTITY",):
            ents = {e.id[0]: view(e.value.pattern) for e in s.entries}
            continue
        assert s.id == ()
        for e in s.entries:
            if isinstance(e, Comment):
                out.append(("comment", e.comment))
                continue
            if isinstance(e.value, SelectMessage):
                v = {}
                for (k,), p in e.value.variants.items():
                    v[k.value if isinstance(k, CatchallKey) else k] = view(p)
            else:
                v = view(e.value.pattern)
            out.append(("entry", e.id, re.sub(r"(?m)^(\w+):  ", r"\1: ", e.comment), [(m.key, m.value) for m in e.meta], v))
    return dict(entries=out, comment=res.comment, entities=ents, meta=[(m.key, m.value) for m in res.meta if not m.key.startswith("xmlns")])


# --- from the data model ------------------------------------------------------------------------

MTEXT = ["Hello", " ", "  ", "\n", "\t", "'", '"', "\\", "@", "?", "&", "]]>", "é", "\u00a0", "\u3000", "\u2028", "😀", "a  b", "\\n", "\\u0041", "x", "#", "{0}", "“", "...", "\u200b", "\u0085", "\x07", "\x1b", "\x1f", "=", ";", "&amp;", "u0041", "n", "--"]


def m_text(rng, n=4):
    return "".join(rng.choice(MTEXT) for _ in range(rng.randint(1, n)))


def m_pattern(rng, depth=2, n=4):
    out = []
    for _ in range(rng.randint(0, n)):
        r = rng.random()
        if r < 0.45:
            if out and isinstance(out[-1], str):
                continue
            out.append(m_text(rng))
        elif r < 0.6:
            p = rng.choice(["%s", "%1$d", "%.2f", "%%", "%10$s"])
            if p == "%%":
                out.append(Expression("%", attributes={"source": "%%"}))
            else:
                m = re.match(r"%(\d+)?", p)
                out.append(Expression(VariableRef("arg" + (m[1] or "")), {"s": "string", "d": "integer", "f": "number"}[p[-1]], attributes={"source": p}))
        elif r < 0.68:
            out.append(Expression(rng.choice(TAGS), "html"))
        elif r < 0.76:
            out.append(Expression(VariableRef(rng.choice(["foo", "bar"])), "entity"))
        elif r < 0.88:
            k = rng.random()
            if k < 0.4:
                out.append(Expression(rng.choice(["Firefox", "it's", 'a "q"', "a\nb", "a\\b", "x  y"]), attributes={"translate": "no"}))
            elif k < 0.8:
                o = rng.choice([{"id": "count"}, {"id": "x", "example": "4 & 5"}])
                out.append(Expression(VariableRef(o["id"]), "xliff:g", o, {"translate": "no", "source": rng.choice(["%s", "Foo", "it\\'s"])}))
            else:
                out.append(Expression("Bob", "xliff:g", {"example": "x"}, {"translate": "no"}))
        elif depth:
            name, o = rng.choice([("b", {}), ("a", {"href": 'http://é/?a=b&c"<>'}), ("br", {}), ("li", {}), ("script", {}), ("input", {"checked": "checked"})])
            out += [Markup("open", name, o)] + m_pattern(rng, depth - 1, 3) + [Markup("close", name)]
    return out
