"""MessageFormat 2 validation: independent validity predicate, declaration order invariant."""
from __future__ import annotations

import copy
import itertools
import re

from moz.l10n.formats.mf2 import MF2ValidationError, mf2_parse_message, mf2_serialize_message, mf2_validate_message
from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef

from .. import mf2ref as R
from ..core import Family, Skip
from ..model import canon, norm

RULE = "distinct by repr of the message; declaration graphs on three names are enumerated in order, others are seeded random"
ASSUMPTIONS = ["malformed parts are wrong types and bad names at each place of the data model; containers are of the declared kind"]

BARE = re.compile(R.BARE)
ID = re.compile(f"{R.BARE}(?::{R.BARE})?")


def is_name(x):
    return isinstance(x, str) and BARE.fullmatch(x) is not None


def is_id(x):
    return isinstance(x, str) and ID.fullmatch(x) is not None


def ok_value(v):
    return isinstance(v, str) or (isinstance(v, VariableRef) and is_name(v.name))


def ok_expr(e):
    if not isinstance(e, Expression) or not (e.arg is None or ok_value(e.arg)):
        return False
    if e.function is None:
        return e.arg is not None and not e.options and ok_attrs(e.attributes)
    return is_id(e.function) and ok_opts(e.options) and ok_attrs(e.attributes)


def ok_opts(o):
    return isinstance(o, dict) and all(is_id(k) and ok_value(v) for k, v in o.items())


def ok_attrs(a):
    return isinstance(a, dict) and all(is_id(k) and (v is True or isinstance(v, str)) for k, v in a.items())


def ok_pattern(p):
    return isinstance(p, list) and all(
        isinstance(x, str) or (isinstance(x, Expression) and ok_expr(x))
        or (isinstance(x, Markup) and x.kind in ("open", "close", "standalone") and is_id(x.name) and ok_opts(x.options) and ok_attrs(x.attributes))
        for x in p)


def deps(name, e):
    out = [v.name for v in e.options.values() if isinstance(v, VariableRef)]
    if isinstance(e.arg, VariableRef) and e.arg.name != name:
        out.append(e.arg.name)
    return out


def cyclic(decl):
    state = {}

    def go(n):
        if n not in decl or state.get(n) == 2:
            return False
        if state.get(n) == 1:
            return True
        state[n] = 1
        r = any(go(d) for d in deps(n, decl[n]))
        state[n] = 2
        return r

    return any(go(n) for n in decl)


def valid(m):
    if not isinstance(m.declarations, dict) or not all(is_name(k) and ok_expr(e) for k, e in m.declarations.items()) or cyclic(m.declarations):
        return False
    if isinstance(m, PatternMessage):
        return ok_pattern(m.pattern)
    if not isinstance(m.selectors, tuple) or not m.selectors:
        return False
    if not all(isinstance(s, VariableRef) and is_name(s.name) and R.annotated(m.declarations, s.name) for s in m.selectors):
        return False
    if not isinstance(m.variants, dict):
        return False
    for ks, p in m.variants.items():
        if not isinstance(ks, tuple) or len(ks) != len(m.selectors) or not all(isinstance(k, (str, CatchallKey)) for k in ks) or not ok_pattern(p):
            return False
    return any(all(isinstance(k, CatchallKey) for k in ks) for ks in m.variants)


def judge(ctx, m):
    want = valid(m)
    before = copy.deepcopy(m)
    try:
        mf2_validate_message(m)
        got = True
    except MF2ValidationError:
        got = False
    ctx.ev("accepted" if got else "refused")
    ctx.check(got == want, "accepts-invalid" if got else "refuses-valid", "", message=before)
    if not got:
        return
    a, b = canon(before), canon(m)
    ctx.check(a[2:] == b[2:] and dict(before.declarations) == dict(m.declarations), "validation-changed-message", "", before=before, after=m)
    names = list(m.declarations)
    for i, n in enumerate(names):
        for d in deps(n, m.declarations[n]):
            ctx.ev("dependencies_checked")
            ctx.check(d not in names or names.index(d) < i, "declaration-order", f"${n} comes before ${d}", before=before, after=m)
    src = mf2_serialize_message(m)
    try:
        ref = R.read(src)
    except (R.Bad, R.DontCare) as e:
        ctx.fail("output-malformed", repr(e), out=src, message=m)
    ctx.check(canon(norm(ref), catchall=False) == canon(norm(m), catchall=False), "output-means-other", "", out=src, message=m, read=ref)
    try:
        back = mf2_parse_message(src)
    except ValueError as e:
        ctx.fail("valid-output-rejected", str(e), out=src, message=m)
    ctx.check(canon(norm(back), catchall=False) == canon(norm(m), catchall=False), "valid-roundtrip", "", out=src, message=m)
    c = copy.deepcopy(m)
    mf2_validate_message(c)
    ctx.check(canon(c) == canon(m), "not-idempotent", "", first=m, second=c)
    ctx.ev("valid_roundtrips")


BADNAMES = ["", "1a", "a b", "-x", ".x", "a:b:c", ":a", "a:", "x\u200e", "$x", "a|", 5, None, "\u00d7", "·a", "é!"]
BADVALS = [5, None, ["x"], 1.5]


def exprs(m):
    out = list(m.declarations.values())
    for p in ([m.pattern] if isinstance(m, PatternMessage) else m.variants.values()):
        out += [x for x in p if isinstance(x, (Expression, Markup))]
    return out


def breakage(rng, m):
    """Change one place of the message; returns the name of the change, or None."""
    k = rng.choice(["badname", "argtype", "noarg", "opts-nofn", "fnname", "optname", "optval", "attrname", "attrval", "part", "kind", "selname", "noselector",
                    "keytype", "keycount", "nofallback", "declname", "decltype", "unannotate", "cycle", "self", "chain", "loosesel", "shuffle", "seltype", "varref", "keytuple", "container", "container", "container"])
    sel = isinstance(m, SelectMessage)
    es = exprs(m)
    pats = [m.pattern] if not sel else list(m.variants.values())
    if k == "argtype" and es and isinstance(e := rng.choice(es), Expression):
        e.arg = rng.choice([5, True, ["x"], Expression("x")])
    elif k == "varref" and es and isinstance(e := rng.choice(es), Expression):
        e.arg = VariableRef(rng.choice(BADNAMES))
    elif k == "noarg" and es and isinstance(e := rng.choice(es), Expression):
        e.arg = None
        if rng.random() < 0.6:
            e.function = None
            e.options = {}
    elif k == "opts-nofn" and es and isinstance(e := rng.choice(es), Expression):
        e.function = None
        e.options = {"x": "y"}
    elif k == "fnname" and es:
        e = rng.choice(es)
        if isinstance(e, Markup):
            e.name = rng.choice(BADNAMES)
        else:
            e.function = rng.choice([b for b in BADNAMES if b is not None])
    elif k == "optname" and es:
        e = rng.choice(es)
        if isinstance(e, Expression):
            e.function = e.function or "f"
        e.options[rng.choice(BADNAMES)] = "x"
    elif k == "optval" and es:
        e = rng.choice(es)
        if isinstance(e, Expression):
            e.function = e.function or "f"
        e.options["k"] = rng.choice([5, None, True, VariableRef("1"), VariableRef("")])
    elif k == "container":  # not a mapping, or not a pattern, where one belongs; whatever it holds would do
        r = rng.random()
        other = rng.choice(["", "x", None, 5, [("x", "y")], [], ("x",), {"x"}])
        if r < 0.4 and es:
            e = rng.choice(es)
            if isinstance(e, Expression):
                e.function = e.function or "f"
            setattr(e, rng.choice(["options", "attributes"]), other)
        elif r < 0.6 and pats:
            bad = rng.choice(["", "x", None, 5, True])
            if sel:
                m.variants[rng.choice(list(m.variants))] = bad
            else:
                m.pattern = bad
        elif r < 0.8:
            m.declarations = rng.choice([None, "", [], [("x", Expression("x"))], 5])
        elif sel:
            m.variants = rng.choice([None, "", [(ks, p) for ks, p in m.variants.items()], list(m.variants), 5])
        else:
            return None
    elif k == "attrname" and es:
        rng.choice(es).attributes[rng.choice(BADNAMES)] = rng.choice(["x", True])
    elif k == "attrval" and es:
        rng.choice(es).attributes["k"] = rng.choice([5, None, False, VariableRef("x")])
    elif k == "part" and pats:
        rng.choice(pats).append(rng.choice([5, None, VariableRef("x"), ["x"], CatchallKey(), b"x"]))
    elif k == "kind" and es and isinstance(e := rng.choice(es), Markup):
        e.kind = rng.choice(["", "opening", "Open", None])
    elif k == "declname":
        m.declarations[rng.choice(BADNAMES)] = Expression("x", "f")
    elif k == "decltype":
        m.declarations["zz"] = rng.choice(["x", None, VariableRef("x"), Markup("open", "b"), ["x"]])
    elif k == "self":
        n = rng.choice(R.NAMES)
        m.declarations[n] = Expression(rng.choice([VariableRef(n), VariableRef("q"), "x"]), "f", {"o": VariableRef(n)})
    elif k == "cycle" and len(m.declarations) > 1:
        ns = rng.sample(list(m.declarations), rng.randint(2, len(m.declarations)))
        for a, b in zip(ns, ns[1:] + ns[:1]):
            e = m.declarations[a]
            e.function = e.function or "f"
            e.options["dep"] = VariableRef(b)
        if rng.random() < 0.4:
            m.declarations[ns[0]].options.pop("dep")
    elif k == "chain" and len(m.declarations) > 1:
        ns = rng.sample(list(m.declarations), rng.randint(2, len(m.declarations)))
        for a, b in zip(ns, ns[1:]):
            m.declarations[a] = Expression(VariableRef(b), None)
    elif k == "shuffle":
        items = list(m.declarations.items())
        rng.shuffle(items)
        m.declarations.clear()
        m.declarations.update(items)
    elif not sel:
        return None
    elif k == "selname":
        m.selectors = m.selectors[:-1] + (VariableRef(rng.choice(BADNAMES)),)
    elif k == "seltype":
        m.selectors = rng.choice([m.selectors[:-1] + ("x",), list(m.selectors), m.selectors[:-1] + (Expression(VariableRef("x"), "f"),)])
    elif k == "noselector":
        m.selectors = m.selectors[1:] if rng.random() < 0.5 else ()
    elif k == "loosesel":
        m.selectors = m.selectors[:-1] + (VariableRef(rng.choice(R.NAMES)),)
    elif k == "unannotate":
        n = m.selectors[-1].name
        for _ in range(rng.randint(1, 3)):
            if n not in m.declarations:
                break
            e = m.declarations[n]
            e.function, e.options = None, {}
            if rng.random() < 0.3:
                del m.declarations[n]
            elif rng.random() < 0.3:
                e.arg = VariableRef(n)
            elif e.arg is None:
                e.arg = "x"
            if not isinstance(e.arg, VariableRef):
                break
            n = e.arg.name
    elif k == "keytype":
        p = [m.pattern] if not sel else list(m.variants.values())[0]
        ks = list(m.selectors)
        m.variants[tuple(rng.choice([5, None, True]) if i == len(ks) - 1 else "x" for i in range(len(ks)))] = list(p)
    elif k == "keytuple":
        m.variants[rng.choice(["x", "", 5])] = ["x"]
    elif k == "keycount":
        n = len(m.selectors) + rng.choice([-1, 1, 1, 2])
        m.variants[tuple(rng.choice(["x", "1", CatchallKey()]) for _ in range(n))] = ["x"]
    elif k == "nofallback":
        for ks in [ks for ks in m.variants if all(isinstance(x, CatchallKey) for x in ks)]:
            del m.variants[ks]
        if rng.random() < 0.5:
            m.variants[tuple("x" if i == 0 else CatchallKey("other") for i in range(len(m.selectors)))] = ["x"]
        elif rng.random() < 0.5:
            m.variants[tuple(CatchallKey("other") for i in range(len(m.selectors)))] = ["x"]
    else:
        return None
    return k


def fam_broken(ctx):
    rng = ctx.rng
    m = R.message(rng)
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        try:
            k = breakage(rng, m)
        except (AttributeError, TypeError, ValueError, LookupError):  # the first change left nothing for the second
            break
        if k:
            ctx.ev("changed_" + k)
    if rng.random() < 0.01:
        m = rng.choice(["x", "", None, ["x"], {"pattern": ["x"]}, Expression("x"), Markup("open", "b"), CatchallKey(), VariableRef("x"), 5])
        ctx.case(repr(m))
        try:
            mf2_validate_message(m)
            ctx.fail("accepts-invalid", "not a message", message=m)
        except MF2ValidationError:
            ctx.ev("not_a_message_refused")
        return
    ctx.case(repr(m))
    judge(ctx, m)


PAIRS = [(a, b) for a in "abc" for b in "abc" if a != b]


def fam_graph3(ctx):
    """All dependency graphs on three declarations, with all input/local choices; random order and edge kind."""
    i = ctx.index
    edges = [p for k, p in enumerate(PAIRS) if i >> k & 1]
    inputs = [n for k, n in enumerate("abc") if i >> (6 + k) & 1]
    ctx.case((i, "graph"))
    for perm in itertools.permutations("abc"):
        decl = {}
        for n in perm:
            ds = [y for x, y in edges if x == n]
            if n in inputs:
                arg = VariableRef(n)
            elif ds and ctx.rng.random() < 0.5:
                arg = VariableRef(ds.pop())
            else:
                arg = "lit"
            decl[n] = Expression(arg, "fn", {f"o{d}": VariableRef(d) for d in ds})
        ctx.ev("graphs")
        if ctx.rng.random() < 0.5:
            judge(ctx, PatternMessage(["x"], decl))
        else:
            judge(ctx, SelectMessage(decl, (VariableRef(ctx.rng.choice("abc")),), {(CatchallKey(),): ["x"]}))


def fam_graph(ctx):
    rng = ctx.rng
    names = rng.sample(R.NAMES, rng.randint(2, 8))
    decl = {}
    p = rng.choice([0.1, 0.2, 0.4])
    acyclic = rng.random() < 0.7
    for i, n in enumerate(names):
        ds = [d for j, d in enumerate(names) if (j < i if acyclic else j != i) and rng.random() < p]
        r = rng.random()
        arg = VariableRef(n) if r < 0.4 else VariableRef(ds.pop()) if r < 0.7 and ds else "lit"
        decl[n] = Expression(arg, "fn" if ds or rng.random() < 0.5 else None, {f"o{k}": VariableRef(d) for k, d in enumerate(ds)})
    items = list(decl.items())
    rng.shuffle(items)
    m = PatternMessage(["x"], dict(items))
    ctx.case(repr(m))
    judge(ctx, m)


def fam_syntax(ctx):
    """Data model errors in syntax."""
    rng = ctx.rng
    m = R.message(rng, joined=True)
    w = R.Writer(rng, 0.1)
    src = w.message(m)
    if isinstance(m, SelectMessage):
        head, tail = src.split(".match", 1) if src.count(".match") == 1 else (None, None)
        if head is None:
            raise Skip()
        k = rng.choice(["dupvar", "dupdecl", "implicit", "keys", "nofallback", "none"])
        ks, p = rng.choice(list(m.variants.items()))
        if k == "dupvar":
            src += "\n" + " ".join("*" if isinstance(x, CatchallKey) else w.lit(x) for x in ks) + " {{again}}"
        elif k == "keys":
            src += "\n" + " ".join(["*"] * (len(ks) + rng.choice([1, 2]))) + " {{again}}"
        elif k == "nofallback":
            m.variants = {a: b for a, b in m.variants.items() if not all(isinstance(x, CatchallKey) for x in a)}
            if not m.variants:
                raise Skip()
            src = w.message(m)
        elif k == "dupdecl":
            n, e = rng.choice(list(m.declarations.items()))
            src = head + rng.choice([f".input {{${n} :f}}", f".local ${n} = {{x}}", f".local $new = {{${n}}}.local $new = {{x :f}}"]) + ".match" + tail
        elif k == "implicit":
            src = rng.choice([".local $q = {$r} .local $r = {x}", ".input {$q :f o=$r} .input {$r}", ".input {$q :f o=$q}", ".local $q = {x :f o=$q}",
                              ".local $q = {$q :f}", ".input {$q} .local $q2 = {$q}", ".local $q = {$r} .input {$r}"]) + src
    else:
        k = rng.choice(["dupopt", "dupdecl", "none"])
        if k == "dupopt":
            src = "{{x {$x :f " + rng.choice(["a=1 a=2", "a=1 b=2 a=1", "a=1 b:a=1", "a=1 |x|=2"]) + "}}}"
        elif k == "dupdecl":
            n = rng.choice(list(m.declarations)) if m.declarations else "x"
            src = f".input {{${n}}}" + (src if src.lstrip(R.WS + "\u200e\u2066\u2069\u061c").startswith((".", "{{")) else "{{" + w.pat(m.pattern) + "}}")
    ctx.case(src)
    try:
        want = R.read(src)
    except R.Bad as e:
        want = None
        ctx.ev("bad_" + str(e).replace(" ", "_"))
    except R.DontCare:
        raise Skip()
    try:
        got = mf2_parse_message(src)
    except ValueError:
        got = None
    ctx.ev("syntax_judged")
    ctx.check((got is None) == (want is None), "parse-verdict", "", src=src, got=got, want=want)


FAMILIES = [
    Family("broken", fam_broken, 15000, 600000, need=["accepted", "refused", "valid_roundtrips", "not_a_message_refused", "changed_container"]),
    Family("graph3", fam_graph3, 512, 512, need=["graphs", "dependencies_checked"]),
    Family("graph", fam_graph, 6000, 250000, need=["accepted", "refused", "dependencies_checked"]),
    Family("syntax", fam_syntax, 6000, 200000, need=["syntax_judged", "bad_duplicate_declaration", "bad_duplicate_variant", "bad_fallback", "bad_key_count", "bad_duplicate_option"]),
]
