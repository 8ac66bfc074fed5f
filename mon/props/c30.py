"""C30: the JavaScript library and the Python library agree on message syntax."""

import re

from fluent.syntax import ast as ftl_ast
from moz.l10n.formats import Format
from moz.l10n.formats.fluent.parse import fluent_parse_entry
from moz.l10n.formats.mf2.validate import mf2_validate_message
from moz.l10n.message import entry_to_json, message_from_json, message_to_json, parse_message, serialize_message
from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef

from .. import android as A
from .. import ftl as F
from .. import gen, mf2ref
from .. import js_bridge as js
from .. import xliff as X
from ..core import Family, Skip
from ..model import canon, norm
from . import c28

RULE = "One violation per string or message that the two libraries read or write differently."
ASSUMPTIONS = ["DOMParser and XMLSerializer behave as their specifications say (stand-in in mon/js/dom.mjs)",
               "@fluent/syntax builds the same syntax tree as fluent.syntax, messageformat the one of the MF2 specification (stand-ins fed from Python)"]
FORMATS = ["android", "xliff", "xcode", "properties", "webext", "plain"]
# white space on which Python and ECMAScript do not agree
ODD = re.compile("[\x1c-\x1f\x85\ufeff\u2028\u2029]")
TOKENS = {
    "android": [" ", "  ", "\n", "a", "b c", "%s", "%1$d", "%", "%%", "%n", "%&lt;s", "&lt;", "&gt;", "&amp;", "&foo;", "&lt;b&gt;", "&lt;/p&gt;", "&lt;br/&gt;", "&lt;p>", "<b>", "</b>", "<i/>", '<xliff:g id="x">', "<xliff:g>", "</xliff:g>", "\\n", "\\t",
                "\\u0041", "\\u00", "\\", "\\\\", '\\"', '"', "\\'", "'", "@string/x", "?attr/y", "@", "?", "<!-- c -->", "<![CDATA[<b>&foo;]]>", "é", "%1$tY", "%10$s", "%-5s", "%,d", "{x}", "%$s", "%1s", "%1$", "😀", '<a href="x&amp;y">', "</a>", "&quot;", "&apos;", "&#x41;", '<xliff:g id="x">%1$s</xliff:g>%&lt;s', "<xliff:g>a %2$d</xliff:g> ", "%&lt;tY", '<xliff:g id="y">a<b>%n</b></xliff:g>%&lt;d', '<xliff:g>%3$s%&lt;s%%</xliff:g> %&lt;x'],
    "xliff": [" ", "\n", "a", "%@", "%1$@", "%d", "%", "%%", "%lld", "%#@n@", "&lt;", "&amp;", "&foo;", "<g id='1'>", "</g>", "<x id='2'/>", "<bx id='3'>", "</bx>", "<ph>", "</ph>", "<!-- c -->", "<![CDATA[%s<]]>", "é", "😀", "]]&gt;", "%.2f", "%5$ld", "%-8s"],
    "properties": [" ", "  ", "a", "\\n", "\\t", "\\f", "\\r", "\\u0041", "\\u00e9", "\\\\", "\\", "\\:", "\\=", "=", ":", "#", "!", "é", "😀", "\t", "\\ud83d\\ude00", "\\ ", "%S", "{0}", "'", '"', "\\x", "\\u000a"],
    "webext": [" ", "a", "$", "$$", "$1", "$9", "$0", "$10", "$a$", "$A$", "$x@y$", "$1st$", "$no", "$ $", "é", "😀", "\n", "$$a$", "{", "%s"],
    "plain": [" ", "a", "{x}", "%s", "$1", "\n", "<b>", "&amp;", "\\", "é", "😀", "\t"],
}
TOKENS["xcode"] = TOKENS["xliff"]
PLACEHOLDERS = {"a": {"content": "$1"}, "x@y": {"content": "$2", "example": "e"}, "1st": {"content": "text"}}


def simple(pattern):
    """A JSON pattern with adjacent text joined and nothing empty in it."""
    out = []
    for x in pattern:
        if isinstance(x, str):
            if x and out and isinstance(out[-1], str):
                out[-1] += x
            elif x:
                out.append(x)
        else:
            x = {k: v for k, v in x.items() if v not in ({}, None)}
            at = {k: v for k, v in x.pop("attr", {}).items() if k != "index"}  # Python's note of a position
            out.append({**x, "attr": at} if at else x)
    return out


def fmt_of(kind):
    return Format["plain_json" if kind == "plain" else "xliff" if kind == "xcode" else kind]


def py_read(kind, src):
    kw = {"webext_placeholders": PLACEHOLDERS} if kind == "webext" else {"xliff_is_xcode": True} if kind == "xcode" else {}
    return parse_message(fmt_of(kind), src, **kw)


def js_read(ctx, kind, src, msg=None):
    opt = {"xliffIsXcode": True} if kind == "xcode" else {"webextBaseMsg": message_to_json(msg)} if kind == "webext" else {}
    r = js.call("parsePattern", "xliff" if kind == "xcode" else kind, src, opt)
    ctx.check(r["kept"] and not r["errors"], "js-parse-effects", str(r["errors"]), src=src)
    return r["value"]


def source(rng, kind):
    if kind == "android" and rng.random() < 0.6:
        return A.string(rng).xml
    if kind in ("xliff", "xcode") and rng.random() < 0.6:
        return X.mixed(rng, False, 2, kind == "xcode")
    if rng.random() < 0.2:
        return c28.text(rng, "plain_json" if kind == "plain" else "xliff" if kind == "xcode" else kind)
    return "".join(rng.choice(TOKENS[kind]) for _ in range(rng.randint(0, 7)))


def acceptable(kind, src):
    if ODD.search(src) or any("\ud800" <= c <= "\udfff" for c in src):
        return False
    if kind == "xcode" and "%#@" in src:
        return False  # only substitutions in Python
    if kind == "properties":  # a value, and not the continuation lines of a file
        return not re.search(r"[\n\r]|^[ \t\f]|[ \t\f]$|\\$|\\u(?![0-9a-fA-F]{4})", src) and src.count("\\") % 2 == 0 or re.fullmatch(r"(?:[^\\\n\r]|\\[^u\n\r]|\\u[0-9a-fA-F]{4})*", src) and not re.search(r"^[ \t\f]|[ \t\f]$", src)
    return True


def fam_read(ctx):
    rng = ctx.rng
    kind = FORMATS[ctx.index % len(FORMATS)]
    src = source(rng, kind)
    ctx.case(kind + src)
    if not acceptable(kind, src) or (kind == "properties" and not src):
        raise Skip()
    try:
        msg = py_read(kind, src)
    except Exception:
        if kind in ("android", "xliff", "xcode"):
            try:
                got = js_read(ctx, kind, src)
            except js.JSError as e:
                ctx.check(e.d["parse"] and e.d["message"].startswith("xliff: " if kind == "xcode" else kind + ": ") or "placeholder" in e.d["message"], "error-type", str(e), src=src)
                ctx.ev("refused_" + kind)
                return
            ctx.fail(kind + "-accepted", str(got), src=src)
        if kind == "webext":
            raise Skip()  # what is not declared
        raise
    try:
        got = js_read(ctx, kind, src, msg)
    except js.JSError as e:
        ctx.fail(kind + "-refused", str(e), src=src)
        return
    want = simple(message_to_json(PatternMessage(msg.pattern)))
    ctx.eq(simple(got), want, kind + "-read", src=src)
    ctx.ev("read_" + kind)
    # what one writes, both read back
    write(ctx, kind, PatternMessage(msg.pattern) if kind != "webext" else msg, True, src)


def js_write(kind, msg):
    j = message_to_json(msg)
    r = js.call("serializePattern", "xliff" if kind == "xcode" else kind, j if isinstance(j, list) else j["msg"], "$onError")
    return r


def write(ctx, kind, msg, must, src=None):
    try:
        py = serialize_message(fmt_of(kind), msg)
    except ValueError:
        ctx.ev("python_refuses_" + kind)
        return
    try:
        r = js_write(kind, msg)
    except js.JSError as e:
        ctx.fail(kind + "-write-throws", str(e), message=msg, src=src, python=py)
        return
    ctx.check(r["kept"], "js-argument-changed", "", message=msg)
    if r["errors"]:
        ctx.check(not must or "Unsupported options on entity" in r["errors"][0]["message"], kind + "-write-refused", str(r["errors"][0]["message"]), message=msg, src=src, python=py)
        ctx.ev("javascript_refuses_" + kind)
        return
    text = r["value"]
    # strings that mean the same to Python
    if ODD.search(py):
        raise Skip()
    try:
        want = canon(norm(py_read(kind, py)))
    except Exception:
        raise Skip()  # covered by C28
    try:
        got = canon(norm(py_read(kind, text)))
    except Exception as e:
        ctx.fail(kind + "-unreadable", f"{type(e).__name__}: {e}", message=msg, out=text, python=py)
        return
    ctx.eq(got, want, kind + "-write", message=msg, out=text, python=py)
    back = py_read(kind, text)
    try:
        a, b = (simple(js_read(ctx, kind, s, py_read(kind, py))) for s in (text, py))
    except js.JSError as e:
        ctx.fail(kind + "-reread-throws", str(e), message=msg, out=text, python=py)
        return
    ctx.eq(a, simple(message_to_json(PatternMessage(back.pattern))), kind + "-reread", message=msg, out=text)
    ctx.eq(b, a, kind + "-reread-python", message=msg, out=text, python=py)
    ctx.ev("written_" + kind)


def fam_write(ctx):
    rng = ctx.rng
    kind = FORMATS[ctx.index % len(FORMATS)]
    f = fmt_of(kind).name
    pat = c28.pattern(rng, f) if kind != "plain" else [c28.text(rng, f)]
    if any(isinstance(p, Markup) and p.attributes and p.name != "xliff:g" for p in pat):
        raise Skip()
    if ODD.search(repr(canon(PatternMessage(pat))).encode().decode("unicode_escape", "replace")) or any(ODD.search(x) for p in pat for x in c28.strings(canon(p)) if isinstance(x, str)):
        raise Skip()
    msg = PatternMessage(pat)
    if kind in ("android", "xcode") and not acceptable(kind, "".join(p if isinstance(p, str) else str(p.attributes.get("source", "")) for p in pat)):
        raise Skip()
    if kind == "android" and any(":" in p.name and p.name != "xliff:g" for p in pat if isinstance(p, Markup)):
        raise Skip()  # an undeclared prefix
    if any(isinstance(a, str) and isinstance(b, str) for a, b in zip(pat, pat[1:])):
        ctx.ev("adjacent_text")
        raise Skip()
    ctx.case(kind + repr(canon(msg)))
    write(ctx, kind, msg, False)


# ---------- Fluent ----------
WORDS = ["Hello", "world", "a b", "é", "😀", "it's", 'say "x"', "50%", "x = y", "#", "\\", "-", ".a", "[b", "*c", "{", "}", "{{", "$x", "ok"]


def node(x):
    """fluent.syntax node as plain data."""
    if isinstance(x, list):
        return [node(v) for v in x]
    if isinstance(x, ftl_ast.BaseNode):
        return {"type": type(x).__name__, **{k: node(v) for k, v in vars(x).items() if k not in ("span", "raw", "comment")}}
    return x


def selects(ast):
    return sum(isinstance(n, ftl_ast.SelectExpression) for n in walk(ast))


def walk(x):
    if isinstance(x, list):
        for v in x:
            yield from walk(v)
    elif isinstance(x, ftl_ast.BaseNode):
        yield x
        for v in vars(x).values():
            yield from walk(v)


def lines(rng):
    out = rng.choice([w for w in WORDS if w[0] not in ".*[" or True])
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        out += rng.choice([" ", " ", " ", "\n", "\n\n"]) + rng.choice(WORDS)
    return out


def evals(ctx, a, b, sels_from, kind, **detail):
    sels = F.ftl_selectors(sels_from)
    for env in F.envs(ctx.rng, sels, 16):
        ctx.ev("fluent_evaluations")
        ctx.eq(F.m_eval(a, env), F.m_eval(b, env), kind, env=str(env), **detail)


def fam_fluent_entry(ctx):
    rng = ctx.rng
    g = F.G(rng, 2, same_sel=rng.random() < 0.4, indents=False)
    term = rng.random() < 0.15
    ref = ("-" if term else "") + gen.ident(rng)
    attrs = gen.uniq(rng, lambda: rng.choice(["title", "label", "accesskey", "aria-label", "Zed", "style"]), rng.choice([0, 0, 0, 1, 2, 3]))
    src = ref + " ="
    pats = {}
    if not attrs or term or rng.random() < 0.6:
        src += g.w_pattern(g.pattern(), 4)
    src += "\n"
    for a in attrs:
        src += f"    .{a} =" + g.w_pattern(g.pattern(), 8) + "\n"
    items = F.items(F.parse(src))
    ctx.case(src)
    res = F.parse(src)
    if len(res.body) != 1 or isinstance(res.body[0], ftl_ast.Junk):
        ctx.ev("generated_junk")
        return
    try:
        e = fluent_parse_entry(src)
    except Exception:
        raise Skip()  # nested calls and the like
    name, pj = entry_to_json(e)
    tree = node(res.body[0])
    try:
        got = js.call("fluentParseEntry", src, ftl=tree)["value"]
    except js.JSError as err:
        ctx.fail("fluent-entry-refused", str(err), src=src)
        return
    ctx.eq(got[0], name, "fluent-id", src=src)
    ctx.eq(sorted(got[1]), sorted(k for k in pj if k in ("=", "+")), "fluent-parts", src=src)
    ctx.eq(list(got[1].get("+", {})), list(pj.get("+", {})), "fluent-attributes", src=src)
    entry = res.body[0]
    pairs = [("", entry.value, got[1].get("="), e.value if entry.value else None)] if entry.value else []
    pairs += [(a.id.name, a.value, got[1]["+"][a.id.name], e.properties[a.id.name]) for a in entry.attributes]
    multi = False
    for nm, ast, j, py in pairs:
        if isinstance(py, PatternMessage):
            ctx.check(isinstance(j, list), "fluent-kind", nm, src=src)
            ctx.eq(simple(j), simple(message_to_json(py)), "fluent-pattern", src=src)
            ctx.ev("fluent_patterns")
        else:
            ctx.check(not isinstance(j, list), "fluent-kind", nm, src=src)
            if selects(ast) != len(py.selectors):
                ctx.ev("same_selectors")  # select expressions on the same value
                multi = True
                continue
            jm = message_from_json(j)
            ctx.eq([canon(jm.declarations[s.name]) for s in jm.selectors], [canon(py.declarations[s.name]) for s in py.selectors], "fluent-selectors", src=src)
            evals(ctx, jm, py, ast, "fluent-select", src=src)
            ctx.ev("fluent_selects")
    # what JavaScript writes of what Python has read
    empty = None
    if e.properties and rng.random() < 0.15:
        empty = rng.choice(list(e.properties))
        e.properties[empty] = PatternMessage([])
        pj = entry_to_json(e)[1]
        pairs = [x for x in pairs if x[0] != empty]
    try:
        r = js.call("fluentSerializeEntry", name, {k: v for k, v in pj.items() if k in ("=", "+")}, {"$onError": {}})
    except js.JSError as err:
        ctx.fail("fluent-write-throws", str(err), src=src)
        return
    if any(" with declaration " in e["message"] for e in r["errors"]):
        ctx.ev("function_conflicts")  # a number used as a string
        return
    ctx.check(not r["errors"] and r["kept"], "fluent-write-refused", str(r["errors"]), src=src)
    out = r["value"]
    if any(edges(x) for x in texts([pj.get("="), *(v for k, v in pj.get("+", {}).items() if k != empty)])):
        ctx.ev("text_edges")  # only what a pattern editor shows is kept
        return
    try:
        back = fluent_parse_entry(out)
    except Exception as err:
        ctx.fail("fluent-unreadable", f"{type(err).__name__}: {err}", src=src, out=out)
        return
    ctx.eq(back.id, e.id, "fluent-write-id", src=src, out=out)
    ctx.eq(sorted(back.properties), sorted(e.properties), "fluent-write-attributes", src=src, out=out)
    if empty:
        ctx.eq(fview(back.properties[empty]), [], "fluent-write-empty", out=out)
        ctx.ev("fluent_empty_attribute")
    if multi:
        return
    ctx.eq(sorted(back.properties, key=lambda n: n.lower().replace("accesskey", "\uffffaccesskey")), list(back.properties), "fluent-attribute-order", out=out)
    for nm, ast, _, py in pairs:
        b = back.properties[nm] if nm else back.value
        evals(ctx, b, py, ast, "fluent-write", src=src, out=out)
    ctx.ev("fluent_written")


def texts(x):
    if isinstance(x, dict):
        if "alt" in x:
            for v in x["alt"]:
                yield from texts(v["pat"])
        elif "msg" in x:
            yield from texts(x["msg"])
    elif isinstance(x, list):
        if x and all(isinstance(p, (str, dict)) and not (isinstance(p, dict) and ("alt" in p or "msg" in p)) for p in x):
            yield x
        else:
            for p in x:
                yield from texts(p)


def same(ctx, fmt, pattern, src, **kw):
    """parsePattern and serializePattern do what the functions of the format do; the default error handling is to throw."""
    for own, args, common, cargs in [
            (fmt + "ParsePattern", [src], "parsePattern", [fmt, src]),
            (fmt + "SerializePattern", [pattern, False if fmt == "mf2" else None], "serializePattern", [fmt, pattern])]:
        a, b = outcome(own, args, kw), outcome(common, cargs, kw)
        ctx.eq(b, a, "common-" + common, src=src, pattern=pattern)
        ctx.ev("common_" + fmt)
    junk = ctx.rng.choice(["", "x", "xcode", "FLUENT", "properties "])
    for fn, arg in (("parsePattern", src), ("serializePattern", pattern)):
        try:
            r = js.call(fn, junk, arg)
            ctx.fail("common-format-accepted", f"{fn} {junk!r}: {r}")
        except js.JSError as e:
            ctx.check(e.d["parse"] if fn == "parsePattern" else e.d["serialize"], "common-format-error", str(e))
            ctx.ev("common_unknown_format")


def outcome(fn, args, kw):
    try:
        r = js.call(fn, *args, **kw)
        return r["value"], r["errors"], r["kept"]
    except js.JSError as e:
        return {k: v for k, v in e.d.items()}


def edges(pat):
    """Whether a pattern starts or ends with white space, or has a line that does; or text of control characters."""
    s = "".join(p if isinstance(p, str) else "{}" for p in pat)
    return not s or s != s.strip() or bool(re.search(r"\n[ ]|[\r\x00-\x09\x0b-\x1f]", s))


def fexpr(rng):
    r = rng.random()
    v = VariableRef(rng.choice(["x", "user", "num-1"]))
    if r < 0.35:
        return Expression(v)
    if r < 0.5:
        return Expression(v, rng.choice(["number", "string"]))
    if r < 0.65:
        return Expression(rng.choice(["-brand", "other-msg", "msg.attr"]), "message")
    if r < 0.7:
        return Expression("-brand", "message", {"case": rng.choice(["gen", "1", 'a"b', "c\\d"])})
    if r < 0.75:
        f = rng.choice(["number", "number", "datetime"])
        opts = {"number": {"minimumFractionDigits": "1"}, "datetime": {"month": rng.choice(["long", "short"])}}[f]
        return Expression(v, f, opts if rng.random() < 0.7 else {}, {"fluent-fn": f.upper()} if rng.random() < 0.3 else {})
    if r < 0.85:
        return Expression(v, "number", {"minimumFractionDigits": rng.choice(["0", "2"])} if rng.random() < 0.6 else {}, {"fluent-fn": "NUMBER"})
    if r < 0.9:
        return Expression(None, "platform", {}, {"fluent-fn": "PLATFORM"})
    return Expression(rng.choice(["", " ", "{", '"', "\\", "a b", "é", "1.5", "x\ny", "\x07"]))


def fam_fluent_message(ctx):
    """Messages that Python and JavaScript write."""
    rng = ctx.rng

    def pat():
        out = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            if rng.random() < 0.55:
                t = lines(rng)
                if out and rng.random() < 0.6:
                    t = " " + t
                out.append(t)
            else:
                out.append(fexpr(rng))
                if rng.random() < 0.3:
                    out.append(" ")
        if isinstance(out[-1], str):
            out[-1] = out[-1].rstrip(" \n") or "."
        return out

    if rng.random() < 0.55:
        msg = PatternMessage(pat())
    else:
        sels = gen.uniq(rng, lambda: rng.choice(["x", "y", "z"]), rng.choice([1, 1, 2]))
        decl = {n: rng.choice([Expression(VariableRef(n), "number"), Expression(VariableRef(n), "string"), Expression(VariableRef(n), "number", {"type": "ordinal"}, {"fluent-fn": "NUMBER"})]) for n in sels}
        if rng.random() < 0.2:
            decl["w"] = Expression(VariableRef("x"), "number", {"style": "percent"}, {"fluent-fn": "NUMBER"})
        keys = [sorted(rng.sample(["one", "two", "few", "0", "1", "a", "b-c"], rng.randint(0, 2))) + [CatchallKey(rng.choice([None, "other", "many"]))] for _ in sels]
        combos = [()]
        for ks in keys:
            combos = [c + (k,) for c in combos for k in ks]
        msg = SelectMessage(decl, tuple(VariableRef(n) for n in sels), {c: pat() for c in combos})
    if any(edges(x) for x in texts(message_to_json(msg))):
        raise Skip()
    if isinstance(msg, SelectMessage) and any(isinstance(p, Expression) and isinstance(p.arg, VariableRef) and p.function and p.arg.name in msg.declarations for pat in msg.variants.values() for p in pat):
        ctx.ev("function_on_declared")
        raise Skip()
    ctx.case(repr(canon(msg)))
    try:
        py = serialize_message(Format.fluent, msg)
        want = parse_message(Format.fluent, py)
    except Exception:
        raise Skip()
    try:
        r = js.call("fluentSerializeMessage", message_to_json(msg), {"$onError": {}})
    except js.JSError as e:
        ctx.fail("fluent-message-throws", str(e), message=msg)
        return
    if any(" with declaration " in e["message"] for e in r["errors"]):
        ctx.ev("function_conflicts")  # a number used as a string
        return
    ctx.check(not r["errors"] and r["kept"], "fluent-message-refused", str(r["errors"]), message=msg, python=py)
    try:
        back = parse_message(Format.fluent, r["value"])
    except Exception as e:
        ctx.fail("fluent-message-unreadable", f"{type(e).__name__}: {e}", message=msg, out=r["value"], python=py)
        return
    if isinstance(msg, PatternMessage):
        same(ctx, "fluent", message_to_json(PatternMessage(msg.pattern)), r["value"])
    flat = lambda m: fview(m)
    ctx.eq(flat(back), flat(want), "fluent-message-write", message=msg, out=r["value"], python=py)
    ctx.ev("fluent_messages")
    if isinstance(msg, PatternMessage) and not any("\n" in p for p in msg.pattern if isinstance(p, str)):
        # a pattern as shown in an editor: nothing but placeables is escaped
        for esc in (True, False):
            s = js.call("fluentSerializePattern", message_to_json(msg), None, {"$onError": {"escapeSyntax": esc}})["value"]
            if not esc and any(re.search("[{}]", p) for p in msg.pattern if isinstance(p, str)):
                continue
            j = js.call("fluentParsePattern", s, "$onError")
            ctx.check(not j["errors"], "fluent-editor-refused", str(j["errors"]), out=s)
            a, b = fview(message_from_json(simple(j["value"]))), fview(parse_message(Format.fluent, py))
            ctx.eq(a, b, "fluent-editor", message=msg, out=s)
            ctx.ev("fluent_editor_patterns")


def fview(msg):
    """Contents: text (with literal placeables as text), placeholders, by variant."""
    def pv(pat):
        out = []
        for p in pat:
            if isinstance(p, Expression) and isinstance(p.arg, str) and p.function in (None, "string"):
                p = p.arg
            if isinstance(p, Expression) and p.function == "number" and not p.options and not p.attributes.get("fluent-fn") and isinstance(p.arg, VariableRef):
                p = Expression(p.arg)
            if isinstance(p, Expression) and p.function == "string" and isinstance(p.arg, VariableRef):
                p = Expression(p.arg)
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p if isinstance(p, str) else canon(p))
        return out

    if isinstance(msg, PatternMessage):
        return pv(msg.pattern)
    sels = [canon(msg.declarations[s.name]) for s in msg.selectors]
    return sels, {tuple("*" if isinstance(k, CatchallKey) else k for k in ks): pv(p) for ks, p in msg.variants.items()}


# ---------- MessageFormat 2 ----------
def mvalue(v):
    return {"type": "variable", "name": v.name} if isinstance(v, VariableRef) else {"type": "literal", "value": v}


def mattr(at):
    return {k: True if v is True else {"type": "literal", "value": v} for k, v in at.items()}


def mpart(p):
    if isinstance(p, str):
        return p
    if isinstance(p, Markup):
        return {"type": "markup", "kind": p.kind, "name": p.name, "options": {k: mvalue(v) for k, v in p.options.items()}, "attributes": mattr(p.attributes)}
    out = {"type": "expression", "attributes": mattr(p.attributes)}
    if p.arg is not None:
        out["arg"] = mvalue(p.arg)
    if p.function:
        out["functionRef"] = {"type": "function", "name": p.function, "options": {k: mvalue(v) for k, v in p.options.items()}}
    return out


def mmodel(m):
    decl = [{"type": "input" if isinstance(e.arg, VariableRef) and e.arg.name == n else "local", "name": n, "value": mpart(e)} for n, e in m.declarations.items()]
    if isinstance(m, PatternMessage):
        return {"type": "message", "declarations": decl, "pattern": [mpart(p) for p in m.pattern]}
    key = lambda k: {"type": "*", **({"value": k.value} if k.value else {})} if isinstance(k, CatchallKey) else {"type": "literal", "value": k}
    return {"type": "select", "declarations": decl, "selectors": [{"type": "variable", "name": s.name} for s in m.selectors], "variants": [{"keys": [key(k) for k in ks], "value": [mpart(p) for p in v]} for ks, v in m.variants.items()]}


def fam_mf2(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < 0.6:
        msg = mf2ref.message(rng)
    else:
        msg = c28.select(rng, "mf2") if r < 0.8 else PatternMessage(c28.pattern(rng, "mf2"), c28.declarations(rng, "mf2") if r < 0.9 else {})
        if isinstance(msg, PatternMessage) and c28.loops(msg.declarations):
            raise Skip()
    ctx.case(repr(canon(msg)))
    try:
        mf2_validate_message(msg)
        py = serialize_message(Format.mf2, msg)
        want = parse_message(Format.mf2, py)
    except Exception:
        ctx.ev("mf2_refused")
        return
    j = message_to_json(msg)
    r = js.call("mf2SerializeMessage", j)
    ctx.check(r["kept"], "js-argument-changed", "", message=msg)
    try:
        back = parse_message(Format.mf2, r["value"])
    except Exception as e:
        ctx.fail("mf2-unreadable", f"{type(e).__name__}: {e}", message=msg, out=r["value"], python=py)
        return
    ctx.eq(canon(back), canon(want), "mf2-write", message=msg, out=r["value"], python=py)
    ctx.ev("mf2_written")
    got = js.call("mf2ParseMessage", py, mf2=mmodel(want))["value"]
    ctx.eq(clean(got), clean(message_to_json(want)), "mf2-read", src=py)
    ctx.ev("mf2_selects" if isinstance(want, SelectMessage) else "mf2_patterns")
    if isinstance(want, PatternMessage) and not want.declarations:
        s = js.call("mf2SerializePattern", message_to_json(want), False)["value"]
        ctx.eq(canon(parse_message(Format.mf2, "{{" + s + "}}")), canon(want), "mf2-pattern-write", out=s)
        same(ctx, "mf2", message_to_json(want), s, mf2=mmodel(want))
        ctx.eq(clean(js.call("mf2ParsePattern", s, mf2=mmodel(want))["value"]), clean(message_to_json(want)), "mf2-pattern-read", src=s)
        try:
            js.call("mf2ParsePattern", s)
            ctx.fail("mf2-error-lost", "", src=s)
        except js.JSError as e:
            ctx.check(e.d["parse"] and e.d["message"].startswith("mf2: "), "mf2-error-type", str(e))
            ctx.eq(e.d["range"], [-2, -1], "mf2-error-range")


def clean(j):
    if isinstance(j, list):
        return [clean(x) for x in j]
    if isinstance(j, dict):
        if "keys" in j:
            return {"keys": [{"*": k.get("*") or ""} if isinstance(k, dict) else k for k in j["keys"]], "pat": clean(j["pat"])}
        return {k: clean(v) for k, v in j.items() if not (k in ("opt", "attr") and not v)}
    return j


FAMILIES = [
    Family("read", fam_read, 14000, 400000, need=[f"{a}_{f}" for a in ("read", "written") for f in FORMATS] + ["refused_android", "refused_xliff"]),
    Family("write", fam_write, 8000, 300000, need=[f"written_{f}" for f in FORMATS]),
    Family("fluent_entry", fam_fluent_entry, 3000, 80000, need=["fluent_patterns", "fluent_selects", "fluent_evaluations", "fluent_written", "fluent_empty_attribute"]),
    Family("fluent_message", fam_fluent_message, 4000, 120000, need=["fluent_messages", "fluent_editor_patterns", "common_fluent", "common_unknown_format"]),
    Family("mf2", fam_mf2, 5000, 150000, need=["mf2_written", "mf2_selects", "mf2_patterns", "common_mf2"]),
]
