"""Message normalization, emptiness and metadata access against reference models."""
from __future__ import annotations

from copy import deepcopy

from moz.l10n.formats import Format
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef

from .. import gen
from ..core import Family
from ..model import canon, diff

RULE = "distinct by message or by starting metadata and operations; all declaration graphs over three names enumerated"
ASSUMPTIONS = ["a declaration is used if a pattern, a selector or a used declaration refers to its name",
               "declaration chains of up to 200 names"]

NAMES = ["a", "b", "c", "d", "e", "x y", "é", "$", ""]


def refs(x):
    """Names that a part of a message refers to."""
    out = set()
    if isinstance(x, Expression) and isinstance(x.arg, VariableRef):
        out.add(x.arg.name)
    if isinstance(x, (Expression, Markup)):
        out |= {v.name for v in x.options.values() if isinstance(v, VariableRef)}
    return out


def patterns(m):
    return [m.pattern] if isinstance(m, PatternMessage) else list(m.variants.values())


def reference(m):
    """The normalized message, by definition.  Does not modify its argument."""
    m = deepcopy(m)
    used = set() if isinstance(m, PatternMessage) else {s.name for s in m.selectors}
    for p in patterns(m):
        for x in p:
            used |= refs(x)
    todo = list(used)
    while todo:
        n = todo.pop()
        for r in refs(m.declarations.get(n)):
            if r not in used:
                used.add(r)
                todo.append(r)

    def joined(p):
        out = []
        for x in p:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        return [x for x in out if x != ""]

    # dropping an empty text may bring two other texts together: only joined texts are ever empty
    decl = {k: v for k, v in m.declarations.items() if k in used}
    if isinstance(m, PatternMessage):
        return PatternMessage(joined(m.pattern), decl)
    return SelectMessage(decl, m.selectors, {k: joined(p) for k, p in m.variants.items()})


def var(rng, names):
    return VariableRef(rng.choice(names))


def expr(rng, names):
    r = rng.random()
    arg = var(rng, names) if r < 0.5 else None if r < 0.6 else rng.choice(["", "x", "$a", "a"])
    fn = rng.choice([None, "number", "a", "string"]) if arg is not None else "f"
    opts = {rng.choice(["a", "o", "p q"]): var(rng, names) if rng.random() < 0.5 else rng.choice(["", "a", "$b"]) for _ in range(rng.choice([0, 0, 1, 2]))} if fn else {}
    return Expression(arg, fn, opts, {rng.choice(["a", "source", "b"]): rng.choice([True, "a", "$a", ""]) for _ in range(rng.choice([0, 0, 1]))})


def pattern(rng, names):
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 8])):
        r = rng.random()
        if r < 0.35:
            out.append(rng.choice(["a", " ", "x\n", "é", "{$a}", "\u200b"]))
        elif r < 0.6:
            out.append("")
        elif r < 0.8:
            out.append(expr(rng, names))
        else:
            out.append(Markup(rng.choice(["open", "close", "standalone"]), rng.choice(["a", "b"]), {"o": var(rng, names)} if rng.random() < 0.4 else {"p": "a"} if rng.random() < 0.4 else {}))
    return out


def message(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8])
    names = NAMES[:]
    rng.shuffle(names)
    decl = {k: expr(rng, names) for k in names[:n]}
    if rng.random() < 0.1:
        chain = [f"v{i}" for i in range(rng.choice([20, 60, 200]))]
        order = chain[:]
        rng.shuffle(order)
        nxt = dict(zip(chain, chain[1:] + chain[:1] if rng.random() < 0.3 else chain[1:]))
        decl.update({k: Expression(VariableRef(nxt[k])) if k in nxt else Expression("end") for k in order})
        names.append(rng.choice(chain))
    if rng.random() < 0.5:
        return PatternMessage(pattern(rng, names), decl)
    sels = tuple(var(rng, names) for _ in range(rng.choice([1, 1, 2])))
    variants = {tuple(CatchallKey(rng.choice([None, "other"])) if rng.random() < 0.4 else rng.choice(["a", "b", "", "1"]) for _ in sels): pattern(rng, names) for _ in range(rng.randint(1, 4))}
    return SelectMessage(decl, sels, variants)


def judge(ctx, m):
    want = reference(m)
    before = deepcopy(m)
    parts = [x for p in patterns(m) for x in p if not isinstance(x, str)]
    empty = all(not isinstance(x, (Expression, Markup)) and x == "" for p in patterns(m) for x in p)
    ctx.check(m.is_empty() == empty, "is-empty", f"{m.is_empty()}", message=repr(before))
    ctx.check(canon(m) == canon(before), "is-empty-changes", "", message=repr(before))
    res = m.normalize()
    ctx.check(res is m, "normalize-result", "", message=repr(before))
    ctx.check(canon(m) == canon(want), "normalize", f"{diff(canon(m), canon(want))}", message=repr(before), got=repr(m), want=repr(want))
    now = [x for p in patterns(m) for x in p if not isinstance(x, str)]
    ctx.check(len(now) == len(parts) and all(a is b for a, b in zip(now, parts)), "normalize-parts", "", message=repr(before))
    m.normalize()
    ctx.check(canon(m) == canon(want), "normalize-twice", "", message=repr(before))
    ctx.check(m.is_empty() == empty, "is-empty-normalized", "", message=repr(before))
    ctx.ev("normalized")
    ctx.ev("dropped_declarations", len(before.declarations) - len(m.declarations))
    ctx.ev("kept_declarations", len(m.declarations))
    ctx.ev("joined_texts", sum(len(a) - len(b) for a, b in zip(patterns(before), patterns(m))))
    ctx.ev("empty_messages" if empty else "other_messages")


def fam_message(ctx):
    m = message(ctx.rng)
    ctx.case(repr(m))
    judge(ctx, m)
    if isinstance(m, SelectMessage) and all(s.name in m.declarations for s in m.selectors):
        ctx.check(tuple(map(id, m.selector_expressions())) == tuple(id(m.declarations[s.name]) for s in m.selectors), "selector-expressions", "")
        ctx.ev("selector_expressions")


def fam_graphs(ctx):
    """All declaration graphs over three names, for one set of names used in the pattern or selectors."""
    names = ["a", "b", "c"]
    i = ctx.index
    roots, edges0 = i % 8, i // 8 % 8
    ctx.case((roots, edges0))
    for rest in range(64):
        bits = edges0 | rest << 3
        decl = {}
        for k, n in enumerate(names):
            out = [names[j] for j in range(3) if bits >> (3 * k + j) & 1]
            style = (bits + k) % 3
            if style == 0 and out:
                decl[n] = Expression(VariableRef(out[0]), "f", {f"o{j}": VariableRef(o) for j, o in enumerate(out[1:])})
            else:
                decl[n] = Expression("x" if style == 1 else None, "f", {f"o{j}": VariableRef(o) for j, o in enumerate(out)})
        r = [names[j] for j in range(3) if roots >> j & 1]
        judge(ctx, PatternMessage([Expression(VariableRef(n)) for n in r], dict(decl)))
        judge(ctx, PatternMessage([Markup("open", "m", {n: VariableRef(n) for n in r})], dict(decl)))
        if r:
            judge(ctx, SelectMessage(dict(reversed(list(decl.items()))), tuple(VariableRef(n) for n in r), {tuple(CatchallKey() for _ in r): ["", "x", ""]}))
        ctx.ev("graphs")


KEYS = ["a", "b", "A", "", "key", "é"]
VALUES = ["1", "2", "", "x y", "\n"]


def fam_meta(ctx):
    """A history of metadata operations on each of the classes that hold metadata."""
    rng = ctx.rng
    start = [(rng.choice(KEYS), rng.choice(VALUES)) for _ in range(rng.choice([0, 0, 1, 3, 6]))]
    mk = [lambda m: Entry(("x",), PatternMessage([]), meta=m), lambda m: Section(("x",), [], meta=m), lambda m: Resource(rng.choice([None, Format.xliff]), [], meta=m)]
    obj = mk[ctx.index % 3]([Metadata(k, v) for k, v in start])
    other = mk[ctx.index % 3]([])
    ref = [list(x) for x in start]
    ops = []
    for _ in range(rng.randint(1, 25)):
        op, k, v = rng.choice(["get", "has", "has_value", "set", "set", "del"]), rng.choice(KEYS), rng.choice(VALUES)
        ops.append((op, k, v))
        same = [x for x in ref if x[0] == k]
        ids = {id(m): m for m in obj.meta}
        if op == "get":
            got, want = obj.get_meta(k), same[0][1] if same else None
        elif op == "has":
            got, want = obj.has_meta(k), bool(same)
        elif op == "has_value":
            got, want = obj.has_meta(k, v), any(x[1] == v for x in same)
        elif op == "set":
            got, want = obj.set_meta(k, v), None
            if same:
                same[0][1] = v
            else:
                ref.append([k, v])
        else:
            got, want = obj.del_meta(k), len(same)
            ref = [x for x in ref if x[0] != k]
        ctx.ev("meta_" + op)
        ctx.check(got == want and type(got) is type(want), f"meta-{op}", f"{got!r} != {want!r}", start=start, ops=ops)
        ctx.eq([(m.key, m.value) for m in obj.meta], [tuple(x) for x in ref], f"meta-{op}-list", start=start, ops=ops)
        ctx.check(len({id(m) for m in obj.meta}) == len(obj.meta) and sum(id(m) not in ids for m in obj.meta) <= 1, f"meta-{op}-identity", "", start=start, ops=ops)
    ctx.check(other.meta == [], "meta-shared", "")
    ctx.case((ctx.index % 3, start, ops))


def fam_model(ctx):
    """Default values are not shared, all_entries lists each entry once, catch-all keys are one key."""
    rng = ctx.rng
    secs = []
    want = []
    for i in range(rng.choice([0, 1, 2, 4])):
        es = []
        for j in range(rng.choice([0, 1, 2, 5])):
            if rng.random() < 0.3:
                es.append(Comment(gen.plain(rng)))
            else:
                es.append(Entry((f"e{i}.{j}",), rng.choice(["s", PatternMessage(["m"])])))
                want.append(es[-1])
        secs.append(Section((f"s{i}",), es))
    r = Resource(None, secs)
    got = list(r.all_entries())
    ctx.case(repr(r))
    ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "all-entries", "", res=repr(r))
    ctx.ev("entries_listed", len(got))
    a, b = Entry(("x",), PatternMessage([])), Entry(("x",), PatternMessage([]))
    a.properties["p"] = a.value
    a.set_meta("k", "v")
    a.value.declarations["x"] = Expression("y")
    ctx.check(b == Entry(("x",), PatternMessage([])), "defaults-shared", repr(b))
    for cls, args in ((Expression, ("x", "f")), (Markup, ("open", "m")), (Section, (("s",), [])), (Resource, (None, []))):
        one, two = cls(*deepcopy(args)), cls(*deepcopy(args))
        for v in vars(one).values():
            if isinstance(v, dict):
                v["k"] = "v"
            elif isinstance(v, list):
                v.append(Metadata("k", "v"))
        ctx.check(two == cls(*deepcopy(args)) and two != one, "defaults-shared", repr(two))
    v1, v2 = rng.choice([None, "other", "x"]), rng.choice([None, "other", "y"])
    k1, k2 = CatchallKey(v1), CatchallKey(v2)
    ctx.check(k1 == k2 and hash(k1) == hash(k2) and len({(k1,): 1, (k2,): 2}) == 1, "catchall-key", "")
    ctx.check(k1 != (v1 or "x") and str(k1) == (v1 or ""), "catchall-key-text", "")
    ctx.ev("catchall_keys")
    m1, m2 = (SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {(k,): ["x"]}) for k in (k1, k2))
    ctx.check(m1 == m2, "catchall-message", "")


FAMILIES = [
    Family("message", fam_message, 20000, 1000000, need=["dropped_declarations", "kept_declarations", "joined_texts", "empty_messages", "selector_expressions"]),
    Family("graphs", fam_graphs, 64, 64, need=["graphs"]),
    Family("meta", fam_meta, 6000, 200000, need=["meta_get", "meta_has", "meta_has_value", "meta_set", "meta_del"]),
    Family("model", fam_model, 2000, 50000, need=["entries_listed", "catchall_keys"]),
]
