"""What a format cannot hold is refused: whatever a serializer accepts is read back with the same content."""
from __future__ import annotations

import itertools
import re

from moz.l10n.formats import Format
from moz.l10n.formats.mf2 import mf2_validate_message
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import parse_resource, serialize_resource

from .. import files, gen
from ..core import Family, Skip
from ..model import canon, diff

RULE = "distinct by target format and content"
ASSUMPTIONS = ["a placeholder that has its source text is that text in the formats that write it so",
               "identifiers are compared as dotted names in the formats that join their parts",
               "MessageFormat 2 messages are those that pass validation"]

FORMATS = files.FORMATS
MESSAGE = ["android", "fluent", "mf2", "properties", "webext", "xliff", "plain_json"]
DOTTED = {"properties", "dtd", "ini"}
SPECIAL = {
    "android": ["<b>x</b>", "&amp;", "&foo;", "<", ">", "]]>", "@string/x", "?attr/y", "\\n", "\\u0041", "'", '"', "  ", "\n", "\t", "<br>", "<p>", "%", "\\@", "\u00a0", "<!-- x -->"],
    "dtd": ["<!-- x -->", "<!--", "-->", "&quot;", '"', "'", "%", "&", "<", ">", "\n", "&#x41;", "]]>"],
    "fluent": ["[x\n  y", "*a\n    b", ".a\n   b\n c", "{", "}", "{{", "\n[", "\n *", "\n.a = b", "\n", "\n\n", "\n  x", '"', "\\", "[", "*", ".", "#", "\n#", "\t", "\r", "\r\n"],
    "gettext": ["\n", '"', "\\", "\\n", "\t", "\r", "\\\"", "\nmsgid \"x\"", "\n#~ x", "\x04"],
    "inc": ["\n", "\\", "#define a b", "\n#define a b", "#", "\r", "\t"],
    "ini": ["\n", "\n\n", " ;x", ";", "#", "\n[x]", "\na=b", "\n#x", "=", ":", "[", "\r", "rem", "\nrem x", "\\"],
    "mf2": ["{", "}", "|", "\\", ".local", ".", "{{", "}}", "\n", "\u2068", "\u061c.", "\u3000."],
    "plain_json": ['"', "\\", "\n", "/", "\x00", "\x7f"],
    "properties": ["\\", "\n", "\\n", "\\u0041", "=", ":", "#", "!", "\t", "\f", "\r", "\\\n", "\x00", "\x85", "\x1f", "\x19"],
    "webext": ["$", "$$", "$1", "$a$", "$9", "$x", "$A$", "\n", '"', "\\"],
    "xliff": ["<g>", "&lt;", "&", "<", ">", "]]>", "\n", "  ", "\r", "<!--", "%@", "%1$d", "%#@n@"],
}
COMMON = [" ", "  ", "\u00a0", "\u2028", "\u0085", "\x1c", "\x07", "\x7f", "\ufeff", "\u200b", "\ud83d\ude00", "\ufffe", "\x0b", "\f", "\r\n", "\r"]
COMMON[COMMON.index("\ud83d\ude00")] = "\U0001f600"
ALL = sorted({x for v in SPECIAL.values() for x in v} | set(COMMON))


def text(rng, fmt):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        k = rng.random()
        out.append(rng.choice(gen.WORDS) if k < 0.5 else rng.choice(SPECIAL[fmt]) if k < 0.8 else rng.choice(COMMON) if k < 0.9 else rng.choice(ALL))
    return "".join(out)


IDS = ["a", "b", "key", "foo-bar", "x_y", "Key1", "a.b", "-term", "-t.x", "é", "日本", "a b", " a", "a ", "", "a=b", "a:b", "#a", "!a", "[a]", "a]", "[", "a\nb", "a\tb", "a;b", ";", "rem", "rem x", "REM", "a/b", "a|==|b", "0", "1", "9a", "a\\b", "\\",
       "a\"b", "a'b", "<a>", "&a", "$a", "{a}", "a\rb", "a\u2028b", "\u00a0a", "a\x00", "a.", ".a", "..", "@a", "%a", "a,b", "a\u0085", "~", "x\x04y", "a--b", "xml:a", "other", "!ENTITY"]


def ident(rng, fmt):
    return rng.choice(IDS) if rng.random() < 0.35 else gen.ident(rng, extra="_")


def mtext(rng, fmt):
    """Message of text only."""
    return PatternMessage([text(rng, fmt) for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3]))])


def pieces(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
            if len(out) > 1 and isinstance(x, tuple) and x[:2] == ("markup", "close") and out[-2][:2] == ("markup", "open") and out[-2][2] == x[2]:
                a = out[-2]
                out[-2:] = [("markup", "standalone", *a[2:])]  # the same thing in XML
    for i in range(len(out) - 1, -1, -1):  # an element around plain text is the same as a placeholder
        if out[i][:3] == ("markup", "open", "xliff:g"):
            j = next((j for j in range(i + 1, len(out)) if out[j][0] in ("markup", "g")), None)
            if j and out[j][:3] == ("markup", "close", "xliff:g"):
                out[i : j + 1] = [("g", x, out[i][3]) for x in out[i + 1 : j]]
    return out


def unescaped(s):
    """The text of an Android source."""
    return re.sub(r"\\(?:u([0-9a-fA-F]{4})|(.))|[ \t\r\n\f\v]+", lambda m: chr(int(m[1], 16)) if m[1] else {"n": "\n", "t": "\t"}.get(m[2], m[2]) if m[2] else " ", s)


SOURCED = {"android", "properties", "xliff", "plain_json", "gettext", "dtd", "ini", "inc"}


def val(v):
    return ("$", v.name) if isinstance(v, VariableRef) else v


def part(fmt, p, decl, alone=False):
    """Text or a tuple."""
    if isinstance(p, str):
        return p
    src = p.attributes.get("source")
    if isinstance(p, Markup):
        if fmt in SOURCED and fmt not in ("android", "xliff") and isinstance(src, str):
            return src
        if fmt == "android" and p.attributes.get("translate") == "no":
            return ("markup", p.kind, "xliff:g", () if p.kind == "close" else tuple(sorted((k, val(v)) for k, v in p.options.items())))
        return ("markup", p.kind, re.sub(r"^(u|ns\d+):", "?:", p.name) if fmt == "android" else p.name, tuple(sorted((k.replace("{http://www.w3.org/XML/1998/namespace}", "xml:"), val(v)) for k, v in p.options.items())))
    if fmt in SOURCED and isinstance(src, str) and (fmt != "android" or p.attributes.get("translate") != "no" and p.function != "entity" and not (p.function == "reference" and alone)):
        return src
    if fmt == "webext" and isinstance(p.arg, VariableRef) and p.function is None:
        local = decl.get(p.arg.name) if isinstance(p.arg, VariableRef) else None
        if local and not (isinstance(src, str) and re.fullmatch(r"\$[1-9]", src) and p.arg.name == "arg" + src[1:]):
            c = local.attributes.get("source")
            if not isinstance(c, str):
                c = local.arg if not isinstance(local.arg, VariableRef) else re.sub(r"^arg([1-9])$", r"$\1", local.arg.name)
            return ("ph", c)
        return ("pos", re.sub(r"^([1-9])$", r"$\1", src if isinstance(src, str) else re.sub(r"^arg([1-9])$", r"$\1", p.arg.name)))
    if fmt == "fluent":
        return fexpr(p, decl, "")
    if fmt == "android":
        if p.attributes.get("translate") == "no" and not (p.function == "reference" and alone):
            if p.function != "entity" and (src if isinstance(src, str) else getattr(p.arg, "name", p.arg)) in (None, ""):
                return ("markup", "standalone", "xliff:g", tuple(sorted((k, val(v)) for k, v in p.options.items())) if p.function else ())
            return ("g", ("entity", getattr(p.arg, "name", p.arg)) if p.function == "entity" else unescaped(src) if isinstance(src, str) else getattr(p.arg, "name", p.arg), tuple(sorted((k, val(v)) for k, v in p.options.items())) if p.function else ())
        if p.function == "entity":
            return ("entity", getattr(p.arg, "name", p.arg))
        if p.function == "reference" and alone:
            return ("reference", p.arg)
        if isinstance(p.arg, str):
            return p.arg
    return ("expr", val(p.arg), p.function, tuple(sorted((k, val(v)) for k, v in p.options.items())))


FN = {"number": "NUMBER", "datetime": "DATETIME"}


def fexpr(p, decl, own):
    a = ("nothing",) if p.arg is None else p.arg
    if isinstance(a, VariableRef) and a.name in decl and a.name != own:
        a = fexpr(decl[a.name], decl, a.name)
    elif isinstance(a, VariableRef):
        a = ("$", a.name)
    fn = p.attributes.get("fluent-fn") or FN.get(p.function, p.function)
    opts = tuple(sorted((k, fval(v, decl)) for k, v in p.options.items()))
    if p.function in ("number", "string") and not opts and not p.attributes.get("fluent-fn"):
        return a
    if p.function is None and not opts:
        return a
    return ("fn", a, fn, opts)


def fval(v, decl):
    if isinstance(v, VariableRef):
        return fexpr(decl[v.name], decl, v.name) if v.name in decl else ("$", v.name)
    return v


def view(fmt, msg, last=0):
    """Content of a message, as the format can tell it."""
    if isinstance(msg, str):
        return pieces([msg])
    if isinstance(msg, PatternMessage):
        out = pieces([part(fmt, p, msg.declarations, len(msg.pattern) == 1) for p in msg.pattern])
        # a literal placeholder is quoted text
        return out
    sels = []
    for s in msg.selectors:
        d = msg.declarations.get(s.name)
        sels.append((part(fmt, d, {k: v for k, v in msg.declarations.items() if k != s.name}) if d else ("$", s.name)) if fmt == "fluent" else s.name if fmt == "mf2" else "")
    rows = [(tuple("*" if isinstance(k, CatchallKey) else k for k in ks), ks, pieces([part(fmt, p, msg.declarations, len(pat) == 1) for p in pat])) for ks, pat in msg.variants.items()]
    if fmt == "android" and any(ks == ("other",) for ks in msg.variants):  # the catch-all is another of the quantities
        rows = [(("*",) if ks == ("other",) else (ks[0].value,) if isinstance(ks[0], CatchallKey) and ks[0].value != "other" else k, ks, pat) for k, ks, pat in rows]
    if fmt == "gettext":
        return ("select", sorted(((int(k) if k.isdigit() else k, pat) for k, pat in ((ks[0] if isinstance(ks[0], str) else str(last) if ks[0].value is None else ks[0].value, pat) for _, ks, pat in rows if pat)), key=repr))
    rows = [(k, pat) for k, _, pat in rows]
    if fmt == "fluent":  # written in order of preference, where it makes a difference
        rows.sort(key=repr)
    if fmt == "xliff":  # the first placeholder is the selector
        return ("select", rows)
    return ("select", sels, rows)


def names(fmt, sid, id):
    if fmt in DOTTED:
        return (".".join(sid), ".".join(id)) if fmt == "ini" else (".".join(sid) + "." if sid else "") + ".".join(id)
    return tuple(sid) + tuple(id)


def contents(fmt, res):
    out = []
    last = 0
    for m in res.meta:
        if m.key == "Plural-Forms":
            last = int(re.search(r"nplurals=(\d+)", m.value)[1]) - 1
    for s in sorted(res.sections, key=lambda s: s.id != ("!ENTITY",)) if fmt == "android" else res.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                out.append((names(fmt, s.id, e.id), view(fmt, e.value, last), sorted((k, view(fmt, v)) for k, v in e.properties.items())))
    if fmt == "plain_json":
        from .c27 import grouped

        out = [x[1:] for x in grouped([(None, n, v, p) for n, v, p in out])]
    return out


SEP = re.compile("[\x0b\f\x1c-\x1e\x85\u2028\u2029]")


def strings(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            yield from strings(y)


def each(x, f):
    return f(x) if isinstance(x, str) else type(x)(each(y, f) for y in x) if isinstance(x, (tuple, list)) else x


def values(want, f):
    return [(n, each(v, f), p) for n, v, p in want]


def dtd(s):
    if '"' in s and "'" in s:
        s = s.replace('"', "&quot;")
    return re.sub(r"<!\s*--.*?--\s*>", "", s, flags=re.DOTALL)


def spaces(s):
    return re.sub(r"\s*\n\s*", "\n", s).strip()


def explained(fmt, want, got):
    """Key of the known finding that makes exactly this difference."""
    if fmt == "dtd" and [(n, [x for x in v if x], p) for n, v, p in values(want, dtd)] == got:
        return "dtd-both-quotes" if any('"' in s and "'" in s for s in strings([v for _, v, _ in want])) else "dtd-comment-in-value"
    if fmt == "inc" and values(want, lambda s: re.sub(r"\r\n?|\n", " ", s)) == got:
        return "inc-newline"
    if fmt == "ini" and [(n, [x for x in v if x], p) for n, v, p in values(want, spaces)] == [(n, [x for x in v if x], p) for n, v, p in values(got, spaces)]:
        return "ini-white-space"
    if fmt == "gettext" and any(SEP.search(s) for s in strings(want)):
        return "line-separator"
    if fmt == "android" and (values(want, blocks) == values(got, blocks) or any("<" in s for s in strings(want)) and values(want, folded) == values(got, folded)):
        return "android-block-tags"
    if fmt == "android" and values(want, relative) == values(got, relative):
        return "android-percent"
    if fmt == "fluent" and values(want, indents) == values(got, indents):
        return "message-indent"
    return None


def indents(s):
    return re.sub(r"\n[ \n]*", "\n", s)


def blocks(s):
    return re.sub(r"(<[bh]r/?>)[ \n]", r"\1 ", re.sub(r"[ \n](?=<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b)", " ", s))


def folded(s):
    return re.sub(r"[ \n]+", " ", s)


def relative(s):
    return blocks(re.sub(r"%([1-9][0-9]*\$)?<?", "%", s))


def unreadable(fmt, want, e):
    if fmt == "gettext" and any(SEP.search(s) for s in strings(want)):
        return "line-separator"
    if fmt == "android" and re.match(r"(Invalid|Unsupported) %.* placeholder|.*%", str(e)):
        return "android-percent"
    return None


def judge(ctx, fmt, res, **kw):
    """True if it was written."""
    want = contents(fmt, res)
    try:
        s = "".join(serialize_resource(res, Format[fmt], **kw))
    except Exception as e:
        ctx.ev("refused")
        ctx.ev("refused_" + fmt)
        ctx.check(not isinstance(e, RecursionError), "recursion", repr(e), res=res)
        return False
    ctx.ev("written_" + fmt)
    try:
        back = parse_resource(Format[fmt], s)
    except Exception as e:
        valid(ctx, fmt, e)
        ctx.fail(unreadable(fmt, want, e) or f"{fmt}-unreadable", f"{type(e).__name__}: {e}", res=res, out=s)
    got = contents(fmt, back)
    if got != want:
        key = explained(fmt, want, got)
        ctx.fail(f"{fmt}-changed" if key in (None, "message-indent") else key, f"{[x for x in want if x not in got][:3]} -> {[x for x in got if x not in want][:3]}", res=res, out=s, got=got, want=want)
    return True


def valid(ctx, fmt, e):
    """What is a valid file of the format, but needs more than this library reads."""
    if fmt == "android" and re.match(r"Entity '.*' not defined", str(e)):
        ctx.ev("entity_elsewhere")
        raise Skip()
    if fmt == "fluent" and str(e := e.__cause__ or e).startswith("Unexpected value: {") and re.search(r'"type": "(FunctionReference|MessageReference|TermReference)"}$', str(e)):
        ctx.ev("nested_call")
        raise Skip()


def shell(fmt, rng, entries):
    """The resource with what the format needs to write anything at all."""
    sid = ()
    k = rng.random()
    if fmt == "ini":
        sid = (ident(rng, fmt),) if k < 0.9 else ()
    elif fmt == "xliff":
        sid = ("f1",) if k < 0.6 else ("f1", ident(rng, fmt)) if k < 0.8 else (ident(rng, fmt),)
        for e in entries:
            if rng.random() < 0.95:
                e.meta.append(Metadata("source", "S"))
    elif k < 0.15:
        sid = tuple(ident(rng, fmt) for _ in range(rng.choice([1, 1, 2])))
    elif fmt == "android" and k < 0.25:
        sid = ("!ENTITY",)
    return Section(sid, entries)


def entries(rng, fmt, n, message):
    out = []
    for _ in range(n):
        k = rng.random()
        id = (ident(rng, fmt),) if k < 0.85 else tuple(ident(rng, fmt) for _ in range(rng.choice([0, 2, 2, 3])))
        v = message(rng, fmt)
        out.append(Entry(id, v))
    return out


def fam_text(ctx):
    """Hostile identifiers and texts."""
    rng = ctx.rng
    fmt = FORMATS[ctx.index % len(FORMATS)]
    hostile = rng.random() < 0.3
    if hostile:
        secs = [shell(fmt, rng, entries(rng, fmt, rng.choice([1, 1, 2]), mtext)) for _ in range(rng.choice([1, 1, 1, 2]))]
    else:  # sound identifiers, so that most are written
        es = [Entry((gen.ident(rng, extra="_"),), mtext(rng, fmt)) for _ in range(rng.choice([1, 1, 2, 3]))]
        secs = [Section(("s",) if fmt in ("ini", "xliff") else (), es)]
        if fmt == "xliff":
            for e in es:
                e.meta.append(Metadata("source", "S"))
        if fmt == "fluent" and rng.random() < 0.4:
            for e in es:
                e.properties[rng.choice(["title", "a-b", "é", "", "a b", "1"])] = mtext(rng, fmt)
    res = Resource(Format[fmt], secs)
    ctx.case(repr(canon(res)))
    seen = [names(fmt, s.id, e.id) for s in res.sections for e in s.entries]
    if len({*seen}) < len(seen):
        raise Skip()
    judge(ctx, fmt, res)


def fam_convert(ctx):
    """A file of one format as another."""
    rng = ctx.rng
    src = rng.choice(FORMATS)
    fmt = rng.choice([f for f in FORMATS if f != src])
    text_ = files.source(rng, src, small=True)
    kw = {}
    if src == "properties" and rng.random() < 0.5:
        kw["properties_printf_placeholders"] = True
    try:
        res = parse_resource(Format[src], text_, **kw)
    except Exception:
        raise Skip()
    ctx.case(fmt + text_)
    # one entry at a time, as what cannot be written hides all else
    done = 0
    for s in res.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                e.comment, s.comment = "", ""
                meta = [Metadata("source", "S")] if fmt == "xliff" else []
                one = Resource(Format[fmt], [Section(s.id if fmt != "ini" or s.id else ("s",), [Entry(e.id, e.value, dict(e.properties), meta=meta)])])
                if fmt == "xliff" and not s.id:
                    one.sections[0].id = ("s",)
                done += judge(ctx, fmt, one)
    if done:
        ctx.ev(f"from_{src}")


NAMES = ["x", "y", "user", "arg1", "arg2", "a-b", "a.b", "user_name", "é", "9", "a b", "", "N1", "count", "x$", "-t", "arg10", "X"]
SOURCES = {"android": ["%s", "%1$s", "%2$d", "%%", "%n", "%.2f", "{0}"], "properties": ["%S", "%1$S", "{0}", "#1", "%%"], "webext": ["$1", "$2", "$x$", "$X$", "$9", "$user_name$"], "xliff": ["%@", "%1$d", "%lld", "%#@n@", "%%"],
           "plain_json": ["%s", "%d"], "fluent": ["%s"], "mf2": ["%s"]}
FUNCS = [None, None, None, "number", "integer", "string", "datetime", "message", "platform", "entity", "reference", "html", "xliff:g", "foo", "bad fn", "a:b", "BUILTIN"]
MARKS = ["b", "i", "a", "g", "x", "ph", "xliff:g", "a b", "1", "é", "u:x", "br", "p", "string", "item", "xliff", ""]


def name(rng):
    return rng.choice(NAMES[:8] if rng.random() < 0.8 else NAMES)


def value(rng, fmt):
    return VariableRef(name(rng)) if rng.random() < 0.5 else rng.choice(["1", "-1.5", "x", "a b", "", "{", '"', "\\", "|", "msg", "-term", "msg.attr", "-t.x", "é.x", "@string/foo", "foo", "\n", "$1", "\u2028", "007", text(rng, fmt)])


def options(rng, fmt):
    return {rng.choice(["id", "minimumFractionDigits", "style", "a b", "é", "xml:space", "u:x", "class", "", "1"][: 4 if rng.random() < 0.8 else 10]): value(rng, fmt) if rng.random() < 0.6 else rng.choice(["1", "x"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))}


def expr(rng, fmt):
    fn = rng.choice(FUNCS) if rng.random() < 0.6 else None
    at = {}
    k = rng.random()
    if k < 0.3:
        at["source"] = rng.choice(SOURCES.get(fmt, ["%s"])) if rng.random() < 0.9 else rng.choice(SOURCES[rng.choice(sorted(SOURCES))])
    if fmt == "fluent" and rng.random() < 0.3:
        at["fluent-fn"] = rng.choice(["NUMBER", "FOO", "foo", "F-1", "É", "", "DATETIME"])
    if fmt == "android" and rng.random() < 0.15:
        at["translate"] = "no"
        if rng.random() < 0.7:
            fn = "xliff:g"
    arg = value(rng, fmt) if rng.random() < 0.93 or not fn else None
    return Expression(arg, fn, options(rng, fmt) if fn and rng.random() < 0.5 else {}, at)


def pattern(rng, fmt, depth=2):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.random()
        if k < 0.45:
            out.append(text(rng, fmt))
        elif k < 0.85 or fmt in ("webext", "properties", "fluent", "plain_json") and k < 0.98:
            out.append(expr(rng, fmt))
        else:
            n, o = rng.choice(MARKS[:8] if rng.random() < 0.9 else MARKS), options(rng, fmt) if rng.random() < 0.4 else {}
            at = {"translate": "no"} if rng.random() < 0.1 else {}
            r = rng.random()
            if r < 0.3:
                out.append(Markup("standalone", n, o, at))
            elif r < 0.85 and depth:
                out += [Markup("open", n, o, at), *pattern(rng, fmt, depth - 1), Markup("close", n, attributes=dict(at))]
            else:
                # the elements that hold messages are not part of them
                n = rng.choice([n, n, {"android": "string", "xliff": "target"}.get(fmt, "item")])
                out.append(Markup(rng.choice(["open", "close", "close"]), n, o if rng.random() < 0.5 else {}, at))
    return out


def declarations(rng, fmt):
    out = {}
    for _ in range(rng.choice([0, 0, 0, 1, 2]) if fmt != "webext" else rng.choice([0, 1, 2])):
        n = name(rng)
        if fmt == "webext" and rng.random() < 0.8:
            out[n] = Expression(rng.choice([VariableRef("arg1"), VariableRef("arg3"), "text", "$x", "", VariableRef("foo"), "$1"]), attributes=rng.choice([{}, {"source": "$1"}, {"source": "content"}, {"example": "e"}]))
        else:
            out[n] = expr(rng, fmt)
    return out


def loops(decl):
    """Declarations that refer to one another in a circle have no meaning at all."""
    def refs(n, seen):
        if n in seen:
            return True
        d = decl.get(n)
        if d is None:
            return False
        vs = [v.name for v in [d.arg, *d.options.values()] if isinstance(v, VariableRef)]
        return any(refs(v, seen | {n}) for v in vs if v != n or v in [o.name for o in d.options.values() if isinstance(o, VariableRef)])
    return any(refs(n, frozenset()) for n in decl)


def fam_message(ctx):
    """Any message, through the message-level functions."""
    rng = ctx.rng
    fmt = MESSAGE[ctx.index % len(MESSAGE)]
    decl = declarations(rng, fmt)
    if rng.random() < 0.5 or fmt in ("android", "xliff", "plain_json", "properties") and rng.random() < 0.8:
        decl = {}
    msg = PatternMessage(pattern(rng, fmt), decl)
    ctx.case(fmt + repr(canon(msg)))
    if loops(decl):
        raise Skip()
    if fmt == "webext" and any(isinstance(p, Expression) and isinstance(p.arg, VariableRef) and p.arg.name not in decl and re.fullmatch(r"\$[^$]+\$", str(p.attributes.get("source"))) for p in msg.pattern):
        raise Skip()  # refers to what is not declared
    # what is written as text must be read so in the format
    if fmt == "mf2":
        try:
            mf2_validate_message(msg)
        except Exception:
            ctx.ev("refused_mf2")
            return
    try:
        s = serialize_message(Format[fmt], msg)
    except Exception as e:
        ctx.ev("refused_" + fmt)
        ctx.check(not isinstance(e, RecursionError), "recursion", repr(e), message=msg)
        return
    ctx.ev("written_" + fmt)
    kw = {}
    if fmt == "webext":
        from moz.l10n.formats.webext.serialize import webext_serialize_message

        kw["webext_placeholders"] = webext_serialize_message(msg)[1]
    if fmt == "xliff" and rng.random() < 0.5:
        kw["xliff_is_xcode"] = True
    want = [((), view(fmt, msg), [])]
    try:
        back = parse_message(Format[fmt], s, **kw)
    except Exception as e:
        valid(ctx, fmt, e)
        ctx.fail(unreadable(fmt, want, e) or f"{fmt}-message-unreadable", f"{type(e).__name__}: {e}", message=msg, out=s)
    got = [((), view(fmt, back), [])]
    if got != want:
        ctx.fail(explained(fmt, want, got) or f"{fmt}-message-changed", f"{want[0][1]} -> {got[0][1]}", message=msg, out=s)


KEYS = ["one", "other", "few", "zero", "two", "many", "0", "1", "2", "a", "A b", "", "é", "*", "1.5", "-1"]


def select(rng, fmt):
    sels = [rng.choice(["x", "y", "n", "quantity"]) for _ in range(rng.choice([1, 1, 1, 1, 2]))]
    decl = {n: Expression(VariableRef(n), (fn := rng.choice(["number", "number", "number", "string", "integer", "foo", None])), {} if not fn or rng.random() < 0.9 else {"a": "b"}, {} if rng.random() < 0.9 else {"source": "%d"}) for n in sels}
    if rng.random() < 0.05:
        decl.pop(sels[0])
    elif fmt == "fluent" and rng.random() < 0.15:
        decl[sels[0]] = Expression(rng.choice(["-t", "-t.a", "m", "m.a", "-t-x", "lit", "1"]), rng.choice(["message", "message", "string", "number"]), rng.choice([{}, {}, {"a": "b"}]))
    if rng.random() < 0.1:
        decl["z"] = Expression("lit")
    if fmt == "xliff":  # Xcode's plurals
        keys = [k for k in KEYS[:6] if k != "other" and rng.random() < 0.5]
        n, src = rng.choice([("int", "%d"), ("num", "%g"), ("str", "%s"), ("x", "%#@x@"), ("y", "%#@y@")])
        plain = lambda: text(rng, fmt).replace("%", "")
        variants = {(k,): [plain(), *([Expression(VariableRef(n), attributes={"source": src})] if rng.random() < 0.5 else []), plain()] for k in [*keys, CatchallKey("other")]}
        if rng.random() < 0.05:
            k = rng.choice(list(variants))
            variants[(*k, rng.choice(["x", CatchallKey()]))] = variants.pop(k)
        return SelectMessage({n: Expression(VariableRef(n), {"%g": "number", "%s": "string"}.get(src, "integer") if rng.random() < 0.5 else "number", attributes={"source": src} if rng.random() < 0.8 else {})}, (VariableRef(n),), variants)
    variants = {}
    keys = KEYS[:6] if rng.random() < 0.8 else KEYS
    if fmt == "gettext" and rng.random() < 0.7:
        keys = ["0", "1", "2", "3"]
    m = (lambda: pattern(rng, fmt)) if rng.random() < 0.4 else (lambda: [text(rng, fmt)])
    if len(sels) > 1 and rng.random() < 0.6:  # all combinations of some keys
        dims = [rng.sample(keys, rng.choice([0, 1, 1, 2])) + [CatchallKey(rng.choice([None, None, "other", "many"]))] for _ in sels]
        return SelectMessage(decl, tuple(VariableRef(n) for n in sels), {ks: m() for ks in itertools.product(*dims)})
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        variants[tuple(rng.choice(keys) if rng.random() < 0.9 or len(sels) == 1 else CatchallKey() for _ in sels)] = m()
    if rng.random() < 0.85:
        variants[tuple(CatchallKey(rng.choice([None, "other", "many", "one", "2"])) for _ in sels)] = m()
    return SelectMessage(decl, tuple(VariableRef(n) for n in sels), variants)


def fam_select(ctx):
    rng = ctx.rng
    fmt = rng.choice(["android", "fluent", "gettext", "mf2", "xliff", "xliff", rng.choice(FORMATS)])
    msg = select(rng, fmt if fmt in SOURCES or fmt == "fluent" or fmt == "gettext" else "plain_json")
    ctx.case(fmt + repr(canon(msg)))
    if fmt == "fluent" and len({s.name for s in msg.selectors}) < len(msg.selectors):
        raise Skip()  # means the same as fewer
    if fmt == "mf2":
        try:
            mf2_validate_message(msg)
        except Exception:
            ctx.ev("refused_mf2")
            return
        try:
            s = serialize_message(Format.mf2, msg)
        except ValueError:
            ctx.check("\0" in repr(canon(msg)) or "\\x00" in repr(canon(msg)), "mf2-refused", message=msg)
            return
        ctx.eq(view(fmt, parse_message(Format.mf2, s)), view(fmt, msg), "mf2-select-changed", out=s)
        ctx.ev("selects_mf2")
        return
    meta = []
    sid = ()
    if fmt == "xliff":
        sid = (rng.choice(["Localizable.stringsdict", "Localizable.xcstrings"]),)
        for ks in msg.variants:
            meta.append(Metadata(f"{(ks and str(ks[0])) or 'other'}/source", "S"))
    elif fmt == "ini":
        sid = ("s",)
    res = Resource(Format[fmt], [Section(sid, [Entry((gen.ident(rng, extra="_"),), msg, meta=meta)], meta=[Metadata("header/tool/@tool-id", "com.apple.dt.xcode")] if fmt == "xliff" else [])], meta=[Metadata("Plural-Forms", "nplurals=%d; plural=0;" % rng.choice([1, 2, 3, 4]))] if fmt == "gettext" else [])
    if judge(ctx, fmt, res):
        ctx.ev("selects_" + fmt)


def one(fmt, value, sid=()):
    return Resource(Format[fmt], [Section(sid, [Entry(("k",), PatternMessage([value]))])])


KNOWN = [("dtd", "a\"b'c", "dtd-both-quotes"), ("dtd", "a<!-- b -->c", "dtd-comment-in-value"), ("inc", "a\nb", "inc-newline"), ("ini", " a\n  b ", "ini-white-space"),
         ("gettext", "a\u2028b", "line-separator"), ("android", "%<b", "android-percent"), ("android", "a <p>", "android-block-tags"), ("fluent", "a\n  b", "message-indent")]


# Pieces of comments and metadata that are something else at the start of a line
PIECES = ["a", "word", "é", "\n", "\n", "\n\n", "\n  ", "\r", "\r\n", "\x0b", "\f", "\x1c", "\x85", "\u2028", "\t", " ", "  ", "-->", "--", "->", "<!--", "<!", "*/", "#", "# ", "## ", "### ", "#, fuzzy", "#~ ", "#. ", "~", ",", ":", ".", "|", "-", ";", "!", "\\", "\\\n",
          "x = y", "x=y", "[s]", "#define a b", "#filter emptyLines", 'msgid "x"', 'msgstr "y"', "<!ENTITY x 'y'>", '%x;', '<string name="x">y</string>', "</file>", "<note>n</note>", "{", "}", "]]>", "&amp;", "&x;", '"', "'", "$x$", "    .attr = z", "0", "\0", "\ufeff"]


def attached(rng, fmt):
    return "".join(rng.choice(PIECES) for _ in range(rng.choice([1, 1, 2, 3, 4, 6]))) if rng.random() < 0.7 else " ".join(["note", gen.plain(rng, 3)])


META = {
    "gettext": ["flag", "reference", "translator-comments", "previous-id", "previous-context", "previous-plural", "plural", "obsolete", "other"],
    "android": ["translatable", "product", "{http://schemas.android.com/tools}ignore", "a b", "name", "xmlns:x", "é"],
    "xliff": ["source", "@approved", "note", "note[2]", "note/@from", "note[2]/@priority", "target/@state", "alt-trans/target", "context-group/context", "@xml:space", "a b", "comment()", "@id", "source/@x", "source/g", "x:y"],
}
RMETA = {
    "gettext": ["Language", "X-Key", "Plural-Forms", "Content-Type", "K:y", "a b", ""],
    "android": ["xmlns", "xmlns:tools", "xmlns:xliff", "tools:locale", "a b", "x"],
    "dtd": ["ent", "é.x", "a b", ""],
    "xliff": ["@version", "@xmlns", "@xmlns:x", "@x", "a", "@xsi:y"],
}
FILE_META = ["@source-language", "@datatype", "@target-language", "header/note", "header/tool/@tool-id", "header/skl/external-file/@href", "body/@x", "x y", "note"]


def words(texts):
    return sorted(w for t in texts for w in re.findall(r"[^\W_]+", t.replace("\u200b", "")))


def comments(res):
    info = [m.value for m in res.meta if m.key == "info"]  # the licence of a Fluent file
    return [*info, res.comment, *(s.comment for s in res.sections), *(e.comment for s in res.sections for e in s.entries)]


def attached_resource(rng, fmt):
    """A resource of simple messages with hostile comments or metadata, and which of them."""
    n = 0
    secs = []
    c = lambda p: attached(rng, fmt) if rng.random() < p else ""  # noqa: E731
    what = rng.choice(["comments", "comments", "meta"]) if fmt in META or fmt in RMETA else "comments"
    pc = 0.4 if what == "comments" else 0

    def meta(keys, k):
        return [Metadata(rng.choice(keys), attached(rng, fmt)) for _ in range(rng.choice(k))] if what == "meta" and keys else []

    for k in range(rng.choice([1, 1, 2]) if fmt in ("ini", "xliff", "fluent") else 1):
        es = []
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < pc and fmt != "gettext":
                es.append(Comment(c(1)))
            n += 1
            es.append(Entry((f"k{n}",), PatternMessage([f"v{n}"]), comment=c(pc), meta=meta(META.get(fmt), [0, 1, 1, 2])))
            if fmt == "xliff" and not any(m.key == "source" for m in es[-1].meta):
                es[-1].meta.insert(0, Metadata("source", "S"))
        if rng.random() < pc / 4 and fmt != "gettext":
            es.append(Comment(c(1)))
        secs.append(Section((f"s{k}",) if fmt in ("ini", "xliff") else (), es, comment=c(pc / 3) if fmt != "gettext" else "", meta=meta(FILE_META if fmt == "xliff" else [], [0, 0, 1])))
    res = Resource(Format[fmt], secs, comment=c(pc), meta=meta(RMETA.get(fmt), [0, 0, 1, 2]))
    return res, what


def fam_attached(ctx):
    """Hostile comments and metadata: refused, or the messages stay as they are, and the comments keep their words."""
    rng = ctx.rng
    fmt = FORMATS[ctx.index % len(FORMATS)]
    res, what = attached_resource(rng, fmt)
    ctx.case(repr(res))
    want = [(names(fmt, s.id, e.id), view(fmt, e.value)) for s in res.sections for e in s.entries if isinstance(e, Entry)]
    try:
        s = "".join(serialize_resource(res))
    except Exception as e:
        ctx.ev(f"refused_{what}_{fmt}")
        ctx.check(isinstance(e, (ValueError, TypeError)) or type(e).__module__ != "builtins", "error-type", repr(e), res=res)
        return
    ctx.ev(f"written_{what}_{fmt}")
    try:
        back = parse_resource(Format[fmt], s)
    except Exception as e:
        ctx.fail(f"{fmt}-attached-unreadable", f"{type(e).__name__}: {e}", res=res, out=s)
    got = [(names(fmt, x.id, e.id), view(fmt, e.value)) for x in back.sections for e in x.entries if isinstance(e, Entry)]
    ctx.check(got == want, f"{fmt}-attached-changed", f"{got} != {want}", res=res, out=s)
    if what == "comments":
        ctx.check(words(comments(back)) == words(comments(res)), f"{fmt}-attached-words", f"{words(comments(back))} != {words(comments(res))}", res=res, out=s)
        ctx.ev("comments_kept", sum(map(bool, comments(res))))


PLACES = ["resource_meta", "section_meta", "entry_meta", "section_id", "section_id_2", "entry_id_2", "entry_id_3", "property", "two_properties", "section_comment", "entry_comment", "resource_comment", "standalone", "empty_key_meta", "repeated_meta"]
EXTRA = {f: set(PLACES) for f in FORMATS}
for _f, _kept in {
    "android": "resource_meta entry_meta section_comment entry_comment resource_comment standalone", "dtd": "resource_meta section_id section_id_2 entry_id_2 entry_id_3 section_comment entry_comment resource_comment standalone",
    "fluent": "property two_properties section_comment entry_comment resource_comment standalone", "gettext": "resource_meta entry_id_2 entry_comment resource_comment",
    "inc": "section_comment entry_comment resource_comment standalone", "ini": "section_id section_id_2 entry_id_2 entry_id_3 section_comment entry_comment resource_comment standalone",
    "plain_json": "section_id section_id_2 entry_id_2 entry_id_3", "properties": "section_id section_id_2 entry_id_2 entry_id_3 section_comment entry_comment resource_comment standalone",
    "webext": "entry_comment", "xliff": "entry_meta repeated_meta section_id section_id_2 section_comment entry_comment resource_comment standalone"}.items():
    EXTRA[_f] -= set(_kept.split())


def fam_extras(ctx):
    """Something with a mark on it, at a place that the format may not have: refused, or the mark is still there when it is read again."""
    rng = ctx.rng
    fmt = FORMATS[ctx.index % len(FORMATS)]
    n = 0
    secs = []
    for k in range(rng.choice([1, 1, 2]) if fmt in ("ini", "xliff", "fluent", "android") else 1):
        es = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n += 1
            msg = PatternMessage([f"v{n}"])
            if fmt in ("android", "fluent", "gettext") and rng.random() < 0.25:
                msg = SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {("0" if fmt == "gettext" else "one",): [f"v{n}"], (CatchallKey("1" if fmt == "gettext" else "other"),): [f"w{n}"]})
            es.append(Entry((f"-k{n}" if fmt == "fluent" and rng.random() < 0.2 else f"k{n}",), msg, meta=[Metadata("source", "S")] if fmt == "xliff" else []))
        if fmt == "android" and rng.random() < 0.2:
            n += 1
            es += [Entry((f"k{n}", str(i)), PatternMessage([f"v{n}.{i}"])) for i in range(rng.choice([1, 2]))]
        entity = fmt == "android" and all(isinstance(e.value, PatternMessage) and len(e.id) == 1 for e in es) and rng.random() < 0.3
        secs.append(Section((f"s{k}", *(["g"] * rng.choice([0, 0, 1, 2]) if fmt == "xliff" else [])) if fmt in ("ini", "xliff") else ("!ENTITY",) if entity else (), es))
    res = Resource(Format[fmt], secs, meta=[Metadata("Plural-Forms", "nplurals=2; plural=n!=1;")] if fmt == "gettext" else [])
    places = sorted({rng.choice(PLACES) for _ in range(rng.choice([1, 1, 1, 2]))})
    marks = []
    for p in places:
        mark = f"Zq{len(marks)}"
        marks.append(mark)
        sec = rng.choice(secs)
        e = rng.choice(sec.entries)
        if isinstance(e, Comment):
            e = sec.entries[0]
        if p == "resource_meta":
            res.meta.append(Metadata(mark, mark))
        elif p == "section_meta":
            sec.meta.append(Metadata(mark, mark))
        elif p == "entry_meta":
            e.meta.append(Metadata(mark, mark))
        elif p == "repeated_meta":
            k, of = rng.choice(["Zk", "translatable"]), e if rng.random() < 0.7 else rng.choice([sec, res])
            of.meta += [Metadata(k, mark), Metadata(k, "other" if rng.random() < 0.8 else mark)]
        elif p == "empty_key_meta":
            (e.meta if rng.random() < 0.5 else sec.meta).append(Metadata("", mark))
        elif p == "section_id":
            sec.id = (mark,)
        elif p == "section_id_2":
            sec.id = (*(sec.id[:1] or ("s",)), mark)
        elif p == "entry_id_2":
            e.id = (*e.id, mark) if len(e.id) == 1 else (mark,)
        elif p == "entry_id_3":
            e.id = (*e.id, "x", mark)
        elif p == "property":
            e.properties[mark] = PatternMessage([mark])
        elif p == "two_properties":
            e.properties["a"] = PatternMessage(["a" + mark])
            e.properties[mark] = PatternMessage([])
        elif p == "section_comment":
            sec.comment = mark
        elif p == "entry_comment":
            e.comment = mark
        elif p == "resource_comment":
            res.comment = mark
        else:
            sec.entries.append(Comment(mark))
    ctx.case((fmt, places, repr(res)))
    want = contents(fmt, res)
    before = repr(res)
    try:
        s = "".join(serialize_resource(res))
    except Exception as e:
        ctx.ev(f"refused_extra_{fmt}")
        ctx.check(isinstance(e, (ValueError, TypeError)) or type(e).__module__ != "builtins", "error-type", repr(e), res=res)
        if len(places) == 1 and places[0] in EXTRA[fmt]:
            ctx.ev(f"refused_{fmt}_{places[0]}")
        return
    ctx.ev(f"written_extra_{fmt}")
    ctx.check(repr(res) == before, f"{fmt}-extra-input", "", res=before)
    try:
        back = parse_resource(Format[fmt], s)
    except Exception as e:
        ctx.fail(f"{fmt}-extra-unreadable", f"{type(e).__name__}: {e}", res=res, out=s)
    got = contents(fmt, back)
    ctx.check(got == want, f"{fmt}-extra-changed", f"{got} != {want}", res=res, out=s)
    for mark in marks:
        ctx.check(mark in repr(back), f"{fmt}-extra-lost", f"{places[int(mark[2:])]} is not refused, and not there when read again", res=res, out=s)


def fam_known(ctx):
    fmt, value, key = KNOWN[ctx.index]
    ctx.case(key)
    if fmt == "fluent":
        s = serialize_message(Format.fluent, PatternMessage([value]))
        if view(fmt, parse_message(Format.fluent, s)) != [value]:
            ctx.fail(key, "", value=value, out=s)
        return
    judge(ctx, fmt, one(fmt, value, ("s",) if fmt == "ini" else ()))


FAMILIES = [
    Family("known", fam_known, len(KNOWN), len(KNOWN)),
    Family("message", fam_message, 60000, 900000, need=["refused_" + f for f in MESSAGE] + ["written_" + f for f in MESSAGE]),
    Family("select", fam_select, 16000, 300000, need=["selects_" + f for f in ("android", "fluent", "gettext", "mf2", "xliff")]),
    Family("attached", fam_attached, 30000, 600000, need=["written_comments_" + f for f in FORMATS if f not in ("plain_json",)] + ["written_meta_" + f for f in META] + ["comments_kept"]),
    Family("extras", fam_extras, 12000, 200000, need=[f"refused_{f}_{p}" for f in FORMATS for p in sorted(EXTRA[f])] + ["written_extra_" + f for f in FORMATS]),
    Family("text", fam_text, 30000, 600000, need=["refused_" + f for f in FORMATS if f not in ("properties", "plain_json")] + ["written_" + f for f in FORMATS]),
    Family("convert", fam_convert, 7000, 100000, need=["from_" + f for f in FORMATS] + ["refused_" + f for f in FORMATS] + ["written_" + f for f in FORMATS]),
]
