"""Localization equality: blind to layout, sensitive to every difference of content."""
from __future__ import annotations

from copy import deepcopy

from moz.l10n.formats import Format
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, LinePos, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import l10n_equal, parse_resource, serialize_resource

from .. import files, gen, res
from ..core import Family, Skip
from ..model import canon

RULE = "distinct by resource and edits"
ASSUMPTIONS = ["within a resource, each entry has a distinct pair of section and entry identifiers (documented)",
               "metadata is compared as a set of pairs; the order of variants, options and properties and labels of catch-all keys are not judged"]


def c(x):
    return canon(x, linepos=True)


# --- edits that change nothing ------------------------------------------------------------------

def pad(rng, s):
    return rng.choice(["", " ", "\n", "\t "]) + s + rng.choice(["", " ", "\n\n", "  "])


def bare(s):
    return not s.id and not s.comment.strip() and not s.meta


def e_shuffle_sections(rng, r):
    rng.shuffle(r.sections)


def e_shuffle_entries(rng, r):
    for s in r.sections:
        rng.shuffle(s.entries)


def e_comments(rng, r):
    for s in r.sections:
        s.entries[:] = [e for e in s.entries if isinstance(e, Entry) or rng.random() < 0.5]
        if rng.random() < 0.5:
            s.entries.insert(rng.randint(0, len(s.entries)), Comment(gen.plain(rng)))


def e_empty_section(rng, r):
    r.sections.insert(rng.randint(0, len(r.sections)), Section(rng.choice([(), ("zz",), ("s",)]), [Comment("c")] if rng.random() < 0.5 else [], comment=rng.choice(["", "new"]), meta=res.meta(rng)))


def e_drop_empty(rng, r):
    r.sections[:] = [s for s in r.sections if any(isinstance(e, Entry) for e in s.entries)]


def e_pad(rng, r):
    r.comment = pad(rng, r.comment)
    for s in r.sections:
        s.comment = pad(rng, s.comment)
        for e in s.entries:
            e.comment = pad(rng, e.comment)


def e_meta(rng, r):
    rng.shuffle(r.meta)
    for s in r.sections:
        rng.shuffle(s.meta)
        for e in s.entries:
            if isinstance(e, Entry):
                rng.shuffle(e.meta)


def e_linepos(rng, r):
    for s in r.sections:
        s.linepos = rng.choice([None, LinePos(1, 1, 1, 2)])
        for e in s.entries:
            e.linepos = rng.choice([None, LinePos(5, 6, 7, 8)])


def e_split(rng, r):
    """Anonymous sections are considered equivalent."""
    ss = [s for s in r.sections if bare(s) and len(s.entries) > 1]
    if ss:
        s = rng.choice(ss)
        k = rng.randint(1, len(s.entries) - 1)
        r.sections.insert(rng.randint(0, len(r.sections)), Section((), s.entries[k:], comment=rng.choice(["", " "])))
        del s.entries[k:]


def e_merge(rng, r):
    ss = [s for s in r.sections if bare(s)]
    if len(ss) > 1:
        ss[0].entries += ss[1].entries
        r.sections[:] = [s for s in r.sections if s is not ss[1]]


SAME = [e_shuffle_sections, e_shuffle_entries, e_comments, e_empty_section, e_drop_empty, e_pad, e_meta, e_linepos, e_split, e_merge]


# --- edits that change something ---------------------------------------------------------------

def entries(r):
    return [(s, e) for s in r.sections for e in s.entries if isinstance(e, Entry)]


def pick_entry(rng, r):
    es = entries(r)
    if not es:
        raise Skip()
    return rng.choice(es)


def full_sections(r):
    return [s for s in r.sections if any(isinstance(e, Entry) for e in s.entries)]


def d_meta(rng, ms):
    have = {(m.key, m.value) for m in ms}
    k = rng.random()
    if ms and k < 0.3:
        m = rng.choice(ms)
        ms[:] = [x for x in ms if (x.key, x.value) != (m.key, m.value)]
    elif ms and k < 0.6:
        m = rng.choice(ms)
        old = (m.key, m.value)
        for x in ms:
            if (x.key, x.value) == old:
                if k < 0.45:
                    x.key = "new"
                else:
                    x.value = "new"
    else:
        while True:
            m = Metadata(rng.choice(["a", "n", ""]), rng.choice(["1", "z", ""]))
            if (m.key, m.value) not in have:
                break
            m = Metadata("more", str(len(ms)))
            break
        ms.insert(rng.randint(0, len(ms)), m)


def d_text(rng, s):
    """Another text, also after white space at the ends is dropped."""
    return rng.choice([lambda: s + "x", lambda: "x" + s, lambda: s + " x", lambda: s.strip()[:-1].strip() or ("z" if s.strip() == "y" else "y")])() if s.strip() else "x"


def d_pattern(rng, p):
    k = rng.random()
    i = rng.randrange(len(p)) if p else 0
    if not p or k < 0.25:
        p.insert(i, rng.choice(["x", Expression(VariableRef("new")), Markup("standalone", "br")]))
        return
    x = p[i]
    if isinstance(x, str):
        p[i] = rng.choice([x + " ", x.swapcase() if x.swapcase() != x else x + "x", "x" + x, x + "\u200b"])
    elif isinstance(x, Markup):
        y = rng.random()
        if y < 0.3:
            x.name += "x"
        elif y < 0.6:
            x.kind = "open" if x.kind != "open" else "close"
        elif y < 0.8:
            x.options["new"] = ""
        else:
            x.attributes["new"] = True
    else:
        y = rng.random()
        if y < 0.3:
            x.arg = VariableRef("other" + x.arg.name) if isinstance(x.arg, VariableRef) else VariableRef(str(x.arg))
        elif y < 0.5:
            x.function = "other" if x.function != "other" else "number"
        elif y < 0.75:
            x.options["new"] = VariableRef("x")
        else:
            x.attributes["source"] = str(x.attributes.get("source", "")) + "x"


def d_message(rng, m):
    if isinstance(m, str):
        return m + "x"
    k = rng.random()
    if k < 0.15:
        n = rng.choice(["v", "n", "w"])
        if n in m.declarations:
            m.declarations[n] = Expression("other", "number" if isinstance(m, SelectMessage) else None)
        else:
            m.declarations[n] = Expression("new")
    elif isinstance(m, PatternMessage):
        if k < 0.2:
            return SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {(CatchallKey(),): m.pattern})
        d_pattern(rng, m.pattern)
    elif k < 0.3:
        m.variants[("few",)] = ["x"]
    elif k < 0.45:
        del m.variants[rng.choice(list(m.variants))]
    elif k < 0.5:
        m.selectors = (VariableRef("other"),)
    else:
        d_pattern(rng, rng.choice(list(m.variants.values())))
    return m


def x_format(rng, r):
    r.format = rng.choice([f for f in (None, Format.dtd, Format.gettext, Format.ini) if f != r.format])


def x_comment(rng, r):
    r.comment = d_text(rng, r.comment)


def x_meta(rng, r):
    d_meta(rng, r.meta)


def x_section_id(rng, r):
    ss = full_sections(r)
    if not ss:
        raise Skip()
    s = rng.choice(ss)
    s.id = rng.choice([s.id + ("x",), ("new",), ("x",) + s.id])


def x_section_comment(rng, r):
    ss = full_sections(r)
    if not ss:
        raise Skip()
    s = rng.choice(ss)
    s.comment = d_text(rng, s.comment)


def x_section_meta(rng, r):
    ss = full_sections(r)
    if not ss:
        raise Skip()
    d_meta(rng, rng.choice(ss).meta)


def x_entry_id(rng, r):
    s, e = pick_entry(rng, r)
    e.id = rng.choice([e.id + ("x",), ("new",), ("x",) + e.id])


def x_entry_value(rng, r):
    s, e = pick_entry(rng, r)
    e.value = d_message(rng, e.value)


def x_entry_comment(rng, r):
    s, e = pick_entry(rng, r)
    e.comment = d_text(rng, e.comment)


def x_entry_meta(rng, r):
    d_meta(rng, pick_entry(rng, r)[1].meta)


def x_property(rng, r):
    s, e = pick_entry(rng, r)
    k = rng.random()
    if not e.properties or k < 0.3:
        e.properties["new"] = "x" if isinstance(e.value, str) else PatternMessage([])
    else:
        n = rng.choice(list(e.properties))
        if k < 0.5:
            del e.properties[n]
        elif k < 0.7:
            e.properties = {(n + "x" if p == n else p): v for p, v in e.properties.items()}
            if len(e.properties) == 0:
                raise Skip()
        else:
            e.properties[n] = d_message(rng, e.properties[n])


def x_drop_entry(rng, r):
    s, e = pick_entry(rng, r)
    s.entries[:] = [x for x in s.entries if x is not e]


def x_add_entry(rng, r):
    ss = r.sections or [Section((), [])]
    r.sections[:] = ss
    rng.choice(ss).entries.append(Entry(("new",), PatternMessage([])))


def x_move_entry(rng, r):
    s, e = pick_entry(rng, r)
    to = [x for x in full_sections(r) if x is not s and not (bare(x) and bare(s))
          and (x.id, x.comment.strip(), sorted((m.key, m.value) for m in x.meta)) != (s.id, s.comment.strip(), sorted((m.key, m.value) for m in s.meta))]
    if not to:
        raise Skip()
    s.entries[:] = [x for x in s.entries if x is not e]
    t = rng.choice(to)
    e.id = (*e.id, "moved") if any(isinstance(x, Entry) and x.id == e.id for x in t.entries) else e.id
    t.entries.append(e)


def x_swap_values(rng, r):
    es = entries(r)
    if len(es) < 2:
        raise Skip()
    (_, a), (_, b) = rng.sample(es, 2)
    if a.value == b.value:
        raise Skip()
    a.value, b.value = b.value, a.value


def x_swap_comments(rng, r):
    es = entries(r)
    if len(es) < 2:
        raise Skip()
    (_, a), (_, b) = rng.sample(es, 2)
    if a.comment.strip() == b.comment.strip():
        raise Skip()
    a.comment, b.comment = b.comment, a.comment


def x_comment_to_section(rng, r):
    s, e = pick_entry(rng, r)
    if not e.comment.strip():
        raise Skip()
    e.comment, s.comment = "", s.comment + " " + e.comment


DIFFER = [x_format, x_comment, x_meta, x_section_id, x_section_comment, x_section_meta, x_entry_id, x_entry_value, x_entry_value, x_entry_value, x_entry_comment, x_entry_meta,
          x_property, x_drop_entry, x_add_entry, x_move_entry, x_swap_values, x_swap_comments, x_comment_to_section]


def same(rng, r):
    r = deepcopy(r)
    names = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        f = rng.choice(SAME)
        f(rng, r)
        names.append(f.__name__)
    return r, names


def compare(ctx, a, b, want, kind, **d):
    ca, cb = c(a), c(b)
    got, rev = l10n_equal(a, b), l10n_equal(b, a)
    ctx.check(c(a) == ca and c(b) == cb, "comparison-changes", "", **d)
    ctx.check(got is want, kind, "", a=repr(a), b=repr(b), **d)
    ctx.check(rev is want, kind + "-reversed", "", a=repr(a), b=repr(b), **d)
    ctx.ev("equal_pairs" if want else "unequal_pairs")


def fam_same(ctx):
    rng = ctx.rng
    r = res.resource(rng, strings=rng.random() < 0.2)
    ctx.case(repr(r))
    compare(ctx, r, r, True, "not-reflexive")
    a, na = same(rng, r)
    b, nb = same(rng, r)
    for n in na + nb:
        ctx.ev(n)
    compare(ctx, r, a, True, f"layout-{'-'.join(na)}" if len(na) == 1 else "layout")
    compare(ctx, a, b, True, "layout", edits=(na, nb))


def unique(r):
    """Equality is only specified for resources in which the identifiers tell entries apart."""
    ids = [(s.id, e.id) for s, e in entries(r)]
    return len(set(ids)) == len(ids)


def fam_differ(ctx):
    rng = ctx.rng
    r = res.resource(rng, strings=rng.random() < 0.2)
    x = deepcopy(r)
    f = DIFFER[ctx.index % len(DIFFER)]
    f(rng, x)
    if not unique(x):
        raise Skip()
    name = f.__name__
    ctx.case((name, repr(r), repr(x)))
    ctx.ev(name)
    compare(ctx, r, x, False, f"missed-{name}")
    a, na = same(rng, r)
    y, ny = same(rng, x)
    compare(ctx, a, y, False, f"missed-{name}", edits=(na, ny))
    compare(ctx, x, y, True, "layout", edits=ny)


def fam_classes(ctx):
    """Several resources in known classes: equality has to be the same relation for every pair."""
    rng = ctx.rng
    r = res.resource(rng)
    pool = []
    for k in range(3):
        if k:
            r = deepcopy(r)
            f = rng.choice(DIFFER)
            before = deepcopy(r)
            f(rng, r)
            if not unique(r) or any(l10n_equal(r, p) for _, p in pool):  # two edits that undo each other, judged in "differ"
                r = before
                continue
        pool += [(k, same(rng, r)[0]) for _ in range(3)]
    ctx.case(repr(pool))
    for i, a in pool:
        for j, b in pool:
            ctx.check(l10n_equal(a, b) is (i == j), "classes", f"{i} {j}", a=repr(a), b=repr(b))
            ctx.ev("class_pairs")


def fam_files(ctx):
    """A file and its normal form are equal, and a file without one of its entries is not."""
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    src = files.source(rng, fmt)
    ctx.case(src)
    f = Format[fmt]
    a = parse_resource(f, src)
    if not unique(a):
        raise Skip()
    b = parse_resource(f, src)
    compare(ctx, a, b, True, "parsed-twice", src=src)
    if entries(b):
        g = rng.choice([x_entry_id, x_entry_comment, x_drop_entry, x_add_entry, x_entry_meta])
        g(rng, b)
        if not unique(b) or c(a) == c(b):
            raise Skip()
        compare(ctx, a, b, False, f"missed-{g.__name__}", src=src)
        ctx.ev("files_edited")


FAMILIES = [
    Family("same", fam_same, 15000, 500000, need=["equal_pairs"] + [f.__name__ for f in SAME]),
    Family("differ", fam_differ, 15000, 500000, need=["unequal_pairs"] + [f.__name__ for f in DIFFER]),
    Family("classes", fam_classes, 1500, 40000, need=["class_pairs"]),
    Family("files", fam_files, 1000, 30000, need=["equal_pairs", "files_edited"]),
]
