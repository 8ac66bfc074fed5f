"""The building blocks of migrations, one at a time, against what their documentation says."""
from __future__ import annotations

from copy import deepcopy

from moz.l10n.migrate import Migrate, all_migrations, copy, entry
from moz.l10n.migrate.utils import MigrationContext, get_entry, get_pattern, insert_entry_after, plural_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef

from ..core import Family
from ..model import canon

PLURALS = ["zero", "one", "two", "few", "many"]
NAMES = ["a", "b", "c", "title", "x-y"]


def pattern(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.random()
        out.append(rng.choice(["foo", " bar ", "o", "zoo\n"]) if k < 0.5 else Expression(VariableRef(rng.choice(["x", "user"])), rng.choice([None, "number"]), {"o": "1"} if rng.random() < 0.2 else {}) if k < 0.8 else Markup(rng.choice(["open", "close", "standalone"]), "b"))
    return out


def message(rng):
    if rng.random() < 0.6:
        return PatternMessage(pattern(rng), {"d": Expression(VariableRef("x"), "f")} if rng.random() < 0.1 else {})
    n = rng.choice([1, 1, 2])
    sel = tuple(VariableRef(s) for s in ["n", "m"][:n])
    decl = {s.name: Expression(s, "number") for s in sel}
    keys = [()]
    for _ in sel:
        keys = [(*k, x) for k in keys for x in [*rng.sample(PLURALS, rng.choice([0, 1, 2])), CatchallKey(rng.choice([None, "other"]))]]
    if rng.random() < 0.2:
        rng.shuffle(keys)
    return SelectMessage(decl, sel, {k: pattern(rng) for k in keys})


def some_entry(rng, id):
    return Entry(id, message(rng), {n: message(rng) for n in rng.sample(NAMES, rng.choice([0, 0, 1, 2]))}, comment=rng.choice(["", "", "a note"]), meta=[Metadata("k", "v")] if rng.random() < 0.3 else [])


def some_id(rng):
    return tuple(rng.choice(["a", "b", "c", "s", "t"]) for _ in range(rng.choice([1, 1, 2])))


def resource(rng):
    sections = []
    for sid in rng.choice([[()], [()], [(), ("s",)], [("s",), ("t",)], [("s",), ("s", "t"), ()], [(), ()]]):
        es, seen = [], set()
        for _ in range(rng.choice([0, 1, 2, 4, 6])):
            id = some_id(rng)
            if id not in seen:
                seen.add(id)
                es.append(some_entry(rng, id))
            if rng.random() < 0.2:
                es.append(Comment("alone"))
        sections.append(Section(sid, es))
    return Resource(None, sections)


def lookup(res, id):
    for s in res.sections:
        if id[:len(s.id)] == s.id:
            for e in s.entries:
                if isinstance(e, Entry) and s.id + e.id == id:
                    return e
    return None


def all_ids(res):
    return [s.id + e.id for s in res.sections for e in s.entries if isinstance(e, Entry)]


def variant_pattern(msg, variant):
    """None if there is neither the variant nor one for everything else."""
    if isinstance(msg, PatternMessage):
        return msg.pattern
    v = (variant,) if isinstance(variant, str) else variant
    for k, p in msg.variants.items():
        if v is not None and k == v:
            return p
    for k, p in msg.variants.items():
        if all(isinstance(x, CatchallKey) for x in k):
            return p
    return None


def pick(rng, res):
    ids = all_ids(res)
    id = rng.choice(ids) if ids and rng.random() < 0.85 else some_id(rng)
    e = lookup(res, id)
    prop = None
    if rng.random() < 0.5:
        prop = rng.choice([*e.properties] * 4 + ["nope"]) if e and e.properties else rng.choice(NAMES)
    variant = None
    if rng.random() < 0.5:
        m = e and (e.properties.get(prop) if prop else e.value)
        variant = rng.choice([*m.variants]) if isinstance(m, SelectMessage) and rng.random() < 0.7 else rng.choice(["one", "zz", ("two",), ("one", "two")])
        if len(variant) == 1 and isinstance(variant[0], str) and rng.random() < 0.5:
            variant = variant[0]
    return id, prop, variant


def fam_lookup(ctx):
    rng = ctx.rng
    res = resource(rng)
    id, prop, variant = pick(rng, res)
    ctx.case((repr(res), id, prop, variant))
    before = canon(res)
    e = get_entry(res, *id)
    ctx.check(e is lookup(res, id), "get-entry", f"{id}: {e}")
    ctx.ev("found" if e else "not_found")
    default = [" default"] if rng.random() < 0.5 else None
    m = e and (e.value if prop is None else e.properties.get(prop))
    want = m and variant_pattern(m, variant)
    kw = {k: v for k, v in (("property", prop), ("variant", variant), ("default", default)) if v is not None}
    try:
        got = get_pattern(res, *id, **kw)
    except StopIteration:
        got = None
    if want is None:
        ctx.check(got is default, "get-pattern-default", f"{id} {kw}: {got}")
        ctx.ev("default" if default is not None else "stop")
    else:
        ctx.eq(canon(got), canon(want), "get-pattern", id=id, kw=kw)
        ctx.ev("pattern")
    ctx.eq(canon(res), before, "lookup-changes", id=id)


def replacer(rng):
    """(the function, what becomes of a part)"""
    k = rng.random()
    if k < 0.5:
        return None, lambda x: x
    if k < 0.7:
        def f(x):
            return x.replace("o", "0") if isinstance(x, str) else None
        return f, lambda x: x.replace("o", "0") if isinstance(x, str) else x
    if k < 0.85:
        def f(x):
            if isinstance(x, Expression):
                x.options["new"] = "y"
                x.attributes["a"] = "b"
        def g(x):
            if isinstance(x, Expression):
                x = Expression(x.arg, x.function, {**x.options, "new": "y"}, {**x.attributes, "a": "b"})
            return x
        return f, g
    return (lambda x: "" if isinstance(x, Markup) else None), lambda x: "" if isinstance(x, Markup) else x


def mapped(m, g):
    if isinstance(m, list):
        return [g(x) for x in m]
    if isinstance(m, PatternMessage):
        return PatternMessage(mapped(m.pattern, g), m.declarations)
    return SelectMessage(m.declarations, m.selectors, {k: mapped(p, g) for k, p in m.variants.items()})


def context(res, other):
    ctx = MigrationContext(None, "this", "fr", {})
    ctx._resources["this"] = res
    ctx._resources["other"] = other
    ctx._resources["gone"] = None
    return ctx


def fam_copy(ctx):
    rng = ctx.rng
    res, other = resource(rng), resource(rng)
    where = rng.choice([None, None, "other", "other", "gone"])
    src = {None: res, "other": other, "gone": None}[where]
    id, prop, variant = pick(rng, src or other)
    value_only = prop is None and rng.random() < 0.3
    f, g = replacer(rng)
    ctx.case((repr(src), where, id, prop, variant, value_only))
    before = canon(res), canon(other)
    fn = copy(where, id[0] if len(id) == 1 and rng.random() < 0.5 else id, property=prop, variant=variant, value_only=value_only, replace=f)
    got = fn(res, context(res, other))
    e = src and lookup(src, id)
    m = e and (e.value if prop is None else e.properties.get(prop))
    want = None
    if m:
        if variant is not None or prop is not None and isinstance(m, PatternMessage):
            p = variant_pattern(m, variant)
            want = None if p is None else PatternMessage(mapped(p, g))
        elif value_only or prop is not None:
            want = mapped(m, g)
        else:
            want = Entry(e.id, mapped(e.value, g), {n: mapped(x, g) for n, x in e.properties.items()}, comment=e.comment, meta=e.meta)
    if want is None:
        ctx.eq(got, None, "copy-of-nothing", id=id)
        ctx.ev("copy_nothing")
    else:
        ctx.check(isinstance(got, tuple) and len(got) == 2, "copy-result", f"{got}")
        ctx.eq(canon(got[0]), canon(want), "copy", id=id, property=prop, variant=variant, value_only=value_only)
        ctx.eq({x if isinstance(x, tuple) else (x,) for x in got[1]}, {id}, "copy-after", id=id)
        again = fn(res, context(res, other))
        ctx.eq(canon(again[0]), canon(want), "copy-again", id=id)
        ctx.ev("copy_property" if prop else "copy_value" if value_only else "copy_entry" if variant is None else "copy_variant")
        if f:
            ctx.ev("copy_replaced")
    ctx.eq((canon(res), canon(other)), before, "copy-changes-source", id=id)


def source(rng, res):
    """A value for entry(): (what is passed, the value, ids; None if there is none)"""
    k = rng.random()
    ids = {rng.choice(NAMES) if rng.random() < 0.5 else some_id(rng) for _ in range(rng.choice([0, 1, 2]))}
    norm = {x if isinstance(x, tuple) else (x,) for x in ids}
    v = rng.choice([lambda: "text o", lambda: message(rng), lambda: some_entry(rng, some_id(rng))])()
    if k < 0.3:
        return v, v, set()
    if k < 0.5:
        return (lambda r, c: v), v, set()
    if k < 0.75:
        return (lambda r, c: (v, ids)), v, norm
    if k < 0.85:
        id, prop, variant = pick(rng, res)
        f = copy(None, id, property=prop, variant=variant)
        x = f(res, context(res, None))
        return f, x and x[0], x[1] if x else set()
    return (lambda r, c: None), None, set()


def as_message(v):
    return PatternMessage([v]) if isinstance(v, str) else v.value if isinstance(v, Entry) else v


def fam_entry(ctx):
    rng = ctx.rng
    res = resource(rng)
    none = rng.random() < 0.2
    val, v, ids = (None, None, set()) if none else source(rng, res)
    props = {n: source(rng, res) for n in rng.sample(NAMES, rng.choice([0, 0, 1, 2, 3]))}
    partial = rng.random() < 0.5
    comment = rng.choice([None, None, "", "mine"])
    meta = rng.choice([None, None, [], [Metadata("m", "n")]])
    id = some_id(rng)
    ctx.case((repr(v), repr({n: p[1] for n, p in props.items()}), partial, comment, repr(meta), id))
    before = canon(res)
    c = context(res, None)
    c._update(id)
    got = entry(val, {n: p[0] for n, p in props.items()} if props or rng.random() < 0.5 else None, allow_partial=partial, comment=comment, meta=meta)(res, c)
    lost = (v is None and not none) or any(p[1] is None for p in props.values())
    have = {n: as_message(p[1]) for n, p in props.items() if p[1] is not None}
    if lost and not partial or v is None and not have:
        ctx.eq(got, None, "entry-of-nothing")
        ctx.ev("entry_nothing")
    else:
        ctx.check(isinstance(got, tuple) and isinstance(got[0], Entry), "entry-result", f"{got}")
        e, after = got
        ctx.eq(canon(e.value), canon(PatternMessage([]) if v is None else as_message(v)), "entry-value")
        ctx.eq([(n, canon(p)) for n, p in e.properties.items()], [(n, canon(p)) for n, p in have.items()], "entry-properties")
        ctx.eq({x if isinstance(x, tuple) else (x,) for x in after}, ids.union(*(p[2] for p in props.values() if p[1] is not None)), "entry-after")
        inherit = isinstance(v, Entry) and comment is None and meta is None
        ctx.eq(e.id, id, "entry-id")
        if inherit or comment is not None or not isinstance(v, Entry):
            ctx.eq(e.comment, v.comment if inherit else comment or "", "entry-comment")
        if inherit or meta is not None or not isinstance(v, Entry):
            ctx.eq([(m.key, m.value) for m in e.meta], [(m.key, m.value) for m in (v.meta if inherit else meta or [])], "entry-meta")
        ctx.ev("entry_inherits" if inherit else "entry_partial" if lost else "entry_made")
    ctx.eq(canon(res), before, "entry-changes-source")


def fam_insert(ctx):
    rng = ctx.rng
    res = resource(rng)
    ids = all_ids(res)
    id = rng.choice([("new",), ("s", "new"), ("s", "t", "new"), ("t", "new")])
    after = [rng.choice(ids) if ids and rng.random() < 0.8 else some_id(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    given = [x[0] if len(x) == 1 and rng.random() < 0.5 else x for x in after]
    e = some_entry(rng, id)
    ctx.case((repr(res), id, repr(after)))
    view = lambda: [(s.id, [("new" if x is e else x.id if isinstance(x, Entry) else "#", canon(x.value) if isinstance(x, Entry) else x.comment) for x in s.entries]) for s in res.sections]  # noqa: E731
    want = view()
    val = canon(e.value), canon(e.properties), e.comment
    own = max((s.id for s in res.sections if id[:len(s.id)] == s.id), key=len, default=None)
    if own is not None:
        secs = [s for s in want if s[0] == own]
        place = None
        for s in secs:
            for i, (x, _) in enumerate(s[1]):
                if x != "#" and own + x in after:
                    place = s[1], i + 1
        if place is None:
            place = secs[-1][1], len(secs[-1][1])
        place[0].insert(place[1], ("new", val[0]))
    try:
        insert_entry_after(res, e, *given)
        got = True
    except StopIteration:
        got = False
    ctx.eq(got, own is not None, "insert-possible", id=id)
    ctx.eq(view(), want, "insert", id=id, after=after)
    if got:
        ctx.eq((e.id, canon(e.value), canon(e.properties), e.comment), (id[len(own):], *val), "insert-entry", id=id)
    ctx.ev("inserted" if got else "no_section")


def fam_plural(ctx):
    rng = ctx.rng
    var = rng.choice(["n", "quantity", "count"])
    forms = {k: pattern(rng) for k in rng.sample(PLURALS, rng.randint(0, 5))}
    other = pattern(rng)
    ctx.case((var, repr(forms), repr(other)))
    m = plural_message(var, **deepcopy(forms), other=deepcopy(other))
    ctx.eq([s.name for s in m.selectors], [var], "plural-selector")
    ctx.check(isinstance(m, SelectMessage) and m.selector_expressions() == (Expression(VariableRef(var), "number"),), "plural-selector", f"{m}")
    for cat in [*PLURALS, "other"]:
        ctx.eq(canon(m.variants.get((cat,), m.variants.get((CatchallKey("other"),)))), canon(forms.get(cat, other)), "plural-form", category=cat)
    ctx.eq(len(m.variants), len(forms) + 1, "plural-forms")
    ctx.eq([k for k in m.variants][-1], (CatchallKey("other"),), "plural-order")
    ctx.ev("plurals")


def fam_registry(ctx):
    """Every migration that is made is registered, in order."""
    rng = ctx.rng
    n = rng.choice([1, 2, 4])
    ctx.case(n)
    all_migrations.clear()
    ms = [Migrate({}) for _ in range(n)]
    ctx.check(len(all_migrations) == n and all(a is b for a, b in zip(all_migrations, ms)), "registry", f"{all_migrations}")
    all_migrations.clear()
    ctx.ev("registered", n)


FAMILIES = [
    Family("lookup", fam_lookup, 2000, 60000, need=["found", "not_found", "default", "stop", "pattern"]),
    Family("copies", fam_copy, 2000, 60000, need=["copy_nothing", "copy_property", "copy_value", "copy_entry", "copy_variant", "copy_replaced"]),
    Family("entries", fam_entry, 2000, 60000, need=["entry_nothing", "entry_inherits", "entry_partial", "entry_made"]),
    Family("inserts", fam_insert, 1500, 40000, need=["inserted", "no_section"]),
    Family("plurals", fam_plural, 300, 5000, need=["plurals"]),
    Family("registry", fam_registry, 10, 100, need=["registered"]),
]
