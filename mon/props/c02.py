from __future__ import annotations

import itertools

from moz.l10n.formats import Format
from moz.l10n.formats.fluent import (fluent_parse, fluent_parse_entry, fluent_parse_message, fluent_serialize,
                                     fluent_serialize_entry, fluent_serialize_message)
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import CatchallKey, Entry, Expression, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import parse_resource, serialize_resource

from .. import ftl as F
from .. import gen
from ..core import Family
from ..model import canon, check_same

RULE = ("Fluent files generated from an AST grammar (nested/sibling selects, all inline kinds, string escapes, block/inline layout, "
        "comments of 3 levels); each message evaluated under up to 48 selector assignments in source, parse result and re-parsed output. "
        "Distinct by source text; non-trivial if it has at least one entry.")
ASSUMPTIONS = ["fluent.syntax parses Fluent as the specification says", "variant keys within one select are distinct, exact numbers come before plural categories",
               "functions take at most one positional argument (others are rejected by design)"]


def gen_file(ctx, depth=2, n=4):
    rng = ctx.rng
    g = F.G(rng, depth, same_sel=rng.random() < 0.4)
    src, ids = "", []
    if rng.random() < 0.2:
        src += "# " + gen.plain(rng) + "\n\n"
    if rng.random() < 0.3:
        src += "### " + gen.plain(rng) + "\n" + rng.choice(["", "###\n### more\n"]) + "\n"
    for _ in range(rng.randint(1, n)):
        r = rng.random()
        if r < 0.12:
            src += "\n## " + gen.plain(rng) + "\n" + rng.choice(["", "## second\n"]) + "\n"
        elif r < 0.15 and ids:
            src += "\n##\n\n"
        elif r < 0.25:
            src += "\n# " + gen.plain(rng) + "\n" + rng.choice(["", "#\n# b\n"]) + rng.choice(["\n", "\n\n"])
        elif r < 0.29:
            src += "\n### " + gen.plain(rng) + "\n" + rng.choice(["", "", "###\n###  more\n"]) + rng.choice(["\n", "\n\n"])
        else:
            term = rng.random() < 0.15
            id = gen.ident(rng)
            while id in ids:
                id = gen.ident(rng)
            ids.append(id)
            if rng.random() < 0.25:
                src += "# " + gen.plain(rng) + "\n" + rng.choice(["", "#\n# c\n", "#   indented\n"])
            attrs = gen.uniq(rng, lambda: rng.choice(["title", "label", "accesskey", "aria-label", "Zed", "style"]), rng.choice([0, 0, 0, 1, 2, 3]))
            src += ("-" if term else "") + id + rng.choice([" =", "=", "  = "])
            if attrs and not term and rng.random() < 0.4:
                pass
            else:
                src += g.w_pattern(g.pattern(), 4)
            src += "\n"
            for a in attrs:
                src += rng.choice(["    ", " ", "  "]) + "." + a + rng.choice([" =", "= "]) + g.w_pattern(g.pattern(), 8) + "\n"
            src += rng.choice(["", "", "\n"])
    if rng.random() < 0.1:
        src = src.rstrip("\n ")
    return src


def lib_items(res):
    out = []
    for s in res.sections:
        if s.comment:
            out.append(("GroupComment", s.comment))
        for e in s.entries:
            if isinstance(e, Entry):
                out.append(("entry", e.id[0], e.value, list(e.properties.items()), e.comment))
            else:
                out.append(("Comment", e.comment))
    return out


def compare(ctx, ref, res, what, src):
    """Entry by entry: same ids, comments, attributes and meaning as the fluent.syntax AST says."""
    rng = ctx.rng
    ritems = F.items(ref)
    rc = "\n\n".join(x[1] for x in ritems if x[0] == "ResourceComment" and x[1])
    ctx.check(res.comment == rc, f"{what}-resource-comment", "", src=src, got=res.comment, want=rc)
    rest = [x for x in ritems if x[0] != "ResourceComment" and not (x[0] == "GroupComment" and not x[1]) and not (x[0] == "Comment" and not x[1])]
    if ritems and ritems[0][0] == "Comment" and ritems[0][1]:
        ctx.check([(m.key, m.value) for m in res.meta] == [("info", ritems[0][1])], f"{what}-info", "", src=src)
        rest = rest[1:]
    else:
        ctx.check(not res.meta, f"{what}-info", "", src=src)
    li = lib_items(res)
    sig = lambda xs: [(x[0], x[1], x[4]) if x[0] == "entry" else x for x in xs]  # noqa: E731
    ctx.check(sig(li) == sig(rest), f"{what}-structure", "entries/comments differ", src=src, got=sig(li), want=sig(rest))
    for a, b in zip(li, rest):
        if a[0] != "entry":
            continue
        ctx.ev("entries")
        ctx.check(sorted(k for k, _ in a[3]) == sorted(k for k, _ in b[3]), f"{what}-attributes", "", src=src, got=a[3])
        if what == "parse":
            ctx.check([k for k, _ in a[3]] == [k for k, _ in b[3]], f"{what}-attribute-order", "", src=src)
        bat = dict(b[3])
        for name, msg, pat in [("", a[2], b[2])] + [(k, m, bat[k]) for k, m in a[3]]:
            sels = F.ftl_selectors(pat) if pat is not None else {}
            if len(sels) > 1:
                ctx.ev("multi_selector_messages")
            if sels:
                ctx.ev("select_messages")
            for env in F.envs(rng, sels):
                want = F.ftl_eval(pat, env)
                got = F.m_eval(msg, env)
                ctx.ev("evaluations")
                ctx.check(got == want, f"{what}-meaning", f"{a[1]}.{name} under {env}", src=src, got=got, want=want, message=msg)


def compare_ftl(ctx, ref, out, src, text):
    """The serialized file, resolved by the reference, means the same as the source."""
    rng = ctx.rng
    a, b = F.items(ref), F.items(out)
    ctx.check(not any(x[0] == "junk" for x in b), "serialized-invalid", "output has junk", src=src, out=text)
    ents = lambda xs: [x for x in xs if x[0] == "entry"]  # noqa: E731
    ctx.check([(x[1], x[4]) for x in ents(a)] == [(x[1], x[4]) for x in ents(b)], "serialized-entries", "", src=src, out=text)
    cm = lambda xs: [(x[0], x[1]) for x in xs if x[0] not in ("entry", "ResourceComment") and x[1]]  # noqa: E731
    ctx.check(cm(a) == cm(b), "serialized-comments", "", src=src, out=text, got=cm(b), want=cm(a))
    rc = lambda xs: "\n\n".join(x[1] for x in xs if x[0] == "ResourceComment" and x[1])  # noqa: E731
    ctx.check(rc(a) == rc(b), "serialized-resource-comment", "", src=src, out=text)
    for x, y in zip(ents(a), ents(b)):
        ya = dict(y[3])
        ctx.check(sorted(k for k, _ in x[3]) == sorted(ya), "serialized-attributes", "", src=src, out=text)
        for p, q in [(x[2], y[2])] + [(p, ya[k]) for k, p in x[3]]:
            sels = F.ftl_selectors(p) if p is not None else {}
            for k, v in (F.ftl_selectors(q) if q is not None else {}).items():
                ks = sels.setdefault(k, [])
                ks += [z for z in v if z not in ks]
            for env in F.envs(rng, sels):
                ctx.ev("output_evaluations")
                want, got = F.ftl_eval(p, env), F.ftl_eval(q, env)
                ctx.check(got == want, "serialized-meaning", f"{x[1]} under {env}", src=src, out=text, got=got, want=want)


def literal_text(msg):
    """Quoted literals as text: the library quotes outer whitespace when writing."""
    def pat(p):
        out = []
        for x in p:
            if isinstance(x, Expression) and isinstance(x.arg, str) and x.function is None:
                x = x.arg
            if isinstance(x, str):
                F.push(out, x)
            elif isinstance(x, Expression):
                out.append(opt_order(x))
            else:
                out.append(x)
        return out

    def opt_order(e):  # named arguments have no order; the library sorts them
        return Expression(e.arg, e.function, dict(sorted(e.options.items())), e.attributes)
    if isinstance(msg, PatternMessage):
        return PatternMessage(pat(msg.pattern), msg.declarations)
    return SelectMessage({k: opt_order(v) for k, v in msg.declarations.items()}, msg.selectors, dict(sorted(((k, pat(v)) for k, v in msg.variants.items()), key=lambda kv: [(str(k), isinstance(k, str)) for k in kv[0]])))


def same_resource(ctx, a, b, src, out):
    x, y = lib_items(a), lib_items(b)
    f = lambda xs: [(e[0], e[1], canon(literal_text(e[2])), sorted((k, canon(literal_text(v))) for k, v in e[3]), e[4]) if e[0] == "entry" else e for e in xs]  # noqa: E731
    ctx.check(f(x) == f(y) and a.comment == b.comment and canon(a.meta) == canon(b.meta), "roundtrip-differs",
              "re-parsed resource differs", src=src, out=out, got=y, want=x)
    ctx.ev("roundtrips")


def fam_file(ctx, depth=2, n=4):
    src = gen_file(ctx, depth, n)
    ref = F.parse(src)
    if any(x[0] == "junk" for x in F.items(ref)):
        ctx.ev("generated_junk")
        try:
            fluent_parse(src)
        except ValueError:
            ctx.ev("junk_rejected")
            return
        ctx.fail("junk-accepted", "invalid Fluent parsed without error", src=src)
    ctx.case(src, nontrivial=any(x[0] == "entry" for x in F.items(ref)))
    res = fluent_parse(src.encode() if ctx.rng.random() < 0.5 else src)
    compare(ctx, ref, res, "parse", src)
    out = "".join(fluent_serialize(res))
    compare_ftl(ctx, ref, F.parse(out), src, out)
    back = fluent_parse(out)
    compare(ctx, F.parse(out), back, "reparse", out)
    out2 = "".join(fluent_serialize(back))
    compare_ftl(ctx, ref, F.parse(out2), src, out2)
    if all(F.regular(p) for x in F.items(ref) if x[0] == "entry" for p in [x[2]] + [a[1] for a in x[3]]):
        # selects on one selector inside each other hold unreachable variants, which are dropped
        same_resource(ctx, res, back, src, out)
        ctx.check(out2 == out, "not-idempotent", "", src=src, out=out, out2=out2)
    ctx.check("".join(serialize_resource(res)) == out, "dispatch", "", src=src)


def fam_deep(ctx):
    fam_file(ctx, 3, 2)


def fam_entry(ctx):
    """Entry- and message-level API."""
    rng = ctx.rng
    g = F.G(rng, 2, indents=False)  # see known finding message-indent
    pat = g.w_pattern(g.pattern(), 4)
    src = "key =" + pat + "\n"
    ref = F.items(F.parse(src))
    if len(ref) != 1 or ref[0][0] != "entry":
        ctx.ev("generated_junk")
        return
    ctx.case(src)
    e = fluent_parse_entry(src)
    p = ref[0][2]
    sels = F.ftl_selectors(p)
    es = F.envs(rng, sels)
    for env in es:
        ctx.ev("entry_evaluations")
        ctx.check(F.m_eval(e.value, env) == F.ftl_eval(p, env), "entry-meaning", str(env), src=src)
    out = fluent_serialize_entry(e)
    o = F.items(F.parse(out))
    ctx.check(len(o) == 1 and o[0][0] == "entry" and o[0][1] == "key", "entry-serialize", "", src=src, out=out)
    for env in es:
        ctx.check(F.ftl_eval(o[0][2], env) == F.ftl_eval(p, env), "entry-output-meaning", str(env), src=src, out=out)
    # message: source is the pattern text alone, as written by the library
    text = serialize_message(Format.fluent, e.value)
    ctx.check(text == fluent_serialize_message(e.value), "dispatch", "", src=src)
    m = parse_message(Format.fluent, text)
    for env in es:
        ctx.ev("message_evaluations")
        got, want = F.m_eval(m, env), F.ftl_eval(p, env)
        ctx.check(got == want, "message-roundtrip", str(env), src=src, text=text, got=got, want=want)


def m_text(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice(["", " ", "  ", "\n", " \n ", "{", "}", "{}", "[", ".", "*", "[a] b", ".attr = x", "*[x]", "# c", "=", "\t", "a = b"])
    out = ""
    for _ in range(rng.randint(1, 4)):
        out += rng.choice([rng.choice(gen.WORDS), " ", rng.choice(F.TEXTCH), rng.choice(["{", "}", "{ $x }", "{{", "[", "*", ".", "\""]),
                           "\n" + rng.choice(["", "", "\n"]) + rng.choice(["a", "[", "*", ".", "}", "{", "#", "é", "[x", ".y =", "*[z]"])])
    return out


def m_expr(rng, decl=False):
    r = rng.random()
    if r < 0.4:
        return Expression(VariableRef(rng.choice(["x", "y", "z-1"])))
    if r < 0.55:
        return Expression(rng.choice(F.STRS + ["5", "-1.0", "é"]))
    if r < 0.65:
        return Expression(rng.choice(["5", "-1.0"]), "number")
    if r < 0.75:
        return Expression(rng.choice(["msg", "msg.attr", "-term", "-t-2"]), "message")
    if r < 0.85:
        return Expression(VariableRef("x"), "number", {"minimumFractionDigits": "1"}, rng.choice([{}, {"fluent-fn": "NUMBER"}]))
    if r < 0.92:
        return Expression(VariableRef("d"), "datetime", rng.choice([{}, {"month": "long"}]))
    return Expression(rng.choice([None, VariableRef("x"), "lit"]), "foo", {}, {"fluent-fn": "FOO"})


def m_pattern(rng, n=4):
    out = []
    for _ in range(rng.randint(0, n)):
        x = m_text(rng) if rng.random() < 0.6 else m_expr(rng)
        if isinstance(x, str) and out and isinstance(out[-1], str):
            continue
        out.append(x)
    return out


def m_message(rng):
    if rng.random() < 0.6:
        return PatternMessage(m_pattern(rng))
    names = rng.sample(["x", "y", "w"], rng.choice([1, 1, 2, 3]))
    decl, keys = {}, []
    for nm in names:
        num = rng.random() < 0.5
        decl[nm] = Expression(VariableRef(nm), "number" if num else "string")
        ks = rng.sample(["1", "0", "one", "few"] if num else ["a", "b", "c-d", "nan"], rng.randint(0, 2))
        keys.append(ks + [CatchallKey(rng.choice([None, "other", "zz"]))])
    variants = {}
    for k in itertools.product(*keys):
        variants[k] = m_pattern(rng, 3)
    return SelectMessage(decl, tuple(VariableRef(n) for n in names), variants)


def fam_model(ctx):
    """From the data model: what is written means what the model holds."""
    rng = ctx.rng
    entries = []
    ids = gen.uniq(rng, lambda: rng.choice(["", "", "-"]) + gen.ident(rng), rng.randint(1, 3))
    for id in ids:
        props = {k: m_message(rng) for k in gen.uniq(rng, lambda: rng.choice(["title", "accesskey", "z", "label"]), rng.choice([0, 0, 1, 2]))}
        entries.append(Entry((id,), m_message(rng), props, comment=gen.comment(rng, "c", 3) if rng.random() < 0.3 else ""))
    res = Resource(Format.fluent, [Section((), entries)])
    ctx.case(repr(res))
    before = canon(res)
    out = "".join(fluent_serialize(res))
    ctx.check(canon(res) == before, "mutated", "serializing changed the resource")
    ref = F.items(F.parse(out))
    ctx.check(not any(x[0] == "junk" for x in ref), "model-invalid", "output has junk", res=res, out=out)
    ctx.check([(x[1], x[4]) for x in ref if x[0] == "entry"] == [(e.id[0], e.comment) for e in entries], "model-entries", "", res=res, out=out, got=ref)
    back = fluent_parse(out)
    bent = {e.id: e for e in back.all_entries()}
    for x, e in zip([x for x in ref if x[0] == "entry"], entries):
        attrs = dict(x[3])
        ctx.check(set(attrs) == set(e.properties), "model-attributes", "", res=res, out=out)
        for name, msg, pat, bm in [(None, e.value, x[2], bent[e.id].value)] + [(k, m, attrs[k], bent[e.id].properties.get(k)) for k, m in e.properties.items()]:
            sels = {}
            if isinstance(msg, SelectMessage):
                for v, ks in zip(msg.selectors, zip(*msg.variants)):
                    sels[("var", v.name)] = [k for k in dict.fromkeys(ks) if isinstance(k, str)]
            for env in F.envs(rng, sels):
                env = {k: str(v) for k, v in env.items()}  # names of default variants also decide how numbers are read back
                ctx.ev("model_evaluations")
                want = F.m_eval(msg, env)
                got = F.ftl_eval(pat, env)
                ctx.check(got == want, "model-meaning", f"{e.id}.{name} under {env}", message=msg, out=out, got=got, want=want)
                ctx.check(F.m_eval(bm, env) == want, "model-reparse", f"{e.id}.{name} under {env}", message=msg, out=out, got=bm, want=want)


def fam_known(ctx):
    if ctx.index == 0:
        msg = PatternMessage(["a\n  b"])
        src = serialize_message(Format.fluent, msg)
        ctx.case(src)
        if parse_message(Format.fluent, src) != msg:
            ctx.fail("message-indent", "", src=src)
    elif ctx.index == 1:
        src = 'key = { $x ->\n  [a] A\n *[b] a{ "x\\u2028y" }\n }\n'
        ctx.case(src)
        res = fluent_parse(src)
        out = "".join(fluent_serialize(res))
        if F.ftl_eval(F.items(F.parse(out))[0][2], {}) != ["ax\u2028y"]:
            ctx.fail("known-line-separator", "", out=out)
    elif ctx.index == 2:
        src = "key = { $x ->\n  [a] A\n  [a] B\n *[b] C\n }\n"
        ctx.case(src)
        if F.m_eval(fluent_parse(src).sections[0].entries[0].value, {("var", "x"): "a"}) != ["A"]:
            ctx.fail("duplicate-variant-keys", "", src=src)
    elif ctx.index == 3:
        src = "key = { $x ->\n  [one] A\n  [1] B\n *[b] C\n }\n"
        ctx.case(src)
        out = "".join(fluent_serialize(fluent_parse(src)))
        if out.index("[one]") > out.index("[1]"):
            ctx.fail("number-key-order", "", out=out)


FAMILIES = [
    Family("file", fam_file, 2500, 60000, need=["evaluations", "output_evaluations", "multi_selector_messages", "roundtrips"]),
    Family("deep", fam_deep, 800, 20000, need=["evaluations", "multi_selector_messages"]),
    Family("model", fam_model, 6000, 150000, need=["model_evaluations"]),
    Family("known", fam_known, 4, 4),
    Family("entry", fam_entry, 2000, 50000, need=["entry_evaluations", "message_evaluations"]),
]
