"""Adding entries from one resource to another."""
from __future__ import annotations

from copy import deepcopy

from moz.l10n.model import Comment, Entry
from moz.l10n.resource import add_entries

from .. import files, res
from ..core import Family
from ..model import canon, diff

RULE = "distinct by target, source and option"
ASSUMPTIONS = ["within a resource, each entry has a distinct pair of section and entry identifiers (documented)",
               "added entries are counted one by one, and changed sections once; the sections holding only added entries are not counted"]


def c(x):
    return canon(x, linepos=True)


def index(r):
    out = {}
    for s in r.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                assert (s.id, e.id) not in out
                out[s.id, e.id] = (s, e)
    return out


def pair(rng):
    target = res.resource(rng)
    if rng.random() < 0.5:
        source = res.resource(rng)
    else:  # an older or newer version of the target
        source = deepcopy(target)
        for s in source.sections:
            if rng.random() < 0.2:
                s.comment = res.comment(rng)
            if rng.random() < 0.2:
                s.meta = res.meta(rng)
            if rng.random() < 0.3:
                rng.shuffle(s.entries)
            s.entries = [e for e in s.entries if rng.random() < 0.85]
            for e in s.entries:
                if isinstance(e, Entry) and rng.random() < 0.3:
                    e.comment, e.value = res.comment(rng), res.message(rng)
        if rng.random() < 0.3:
            rng.shuffle(source.sections)
        used = {(s.id, e.id) for r in (source,) for s in r.sections for e in s.entries if isinstance(e, Entry)}
        for s in source.sections:
            for _ in range(rng.choice([0, 0, 1, 3])):
                id = rng.choice(res.IDS)
                if (s.id, id) not in used:
                    used.add((s.id, id))
                    s.entries.insert(rng.randint(0, len(s.entries)), res.entry(rng, id))
        for _ in range(rng.choice([0, 0, 1])):
            # entries moved to another section of the same id, as after editing headings
            a = rng.choice(source.sections) if source.sections else None
            b = next((s for s in source.sections if s is not a and a and s.id == a.id), None)
            if b and a.entries:
                b.entries.append(a.entries.pop())
        if rng.random() < 0.5:
            target, source = source, target
    return target, source


def judge(ctx, target, source, use, d):
    t0, s0 = c(target), c(source)
    tkeys = [(s.id, e.id) for s in target.sections for e in s.entries if isinstance(e, Entry)]
    tsecs = list(target.sections)
    tcomments = [id(e) for s in target.sections for e in s.entries if isinstance(e, Comment)]
    told = {k: (s, e, c(e)) for k, (s, e) in index(target).items()}
    thead = [(s.id, s.comment, c(s.meta)) for s in target.sections]
    src = index(source)
    count = add_entries(target, source, use_source_entries=use) if use or ctx.rng.random() < 0.5 else add_entries(target, source)
    ctx.check(c(source) == s0, "source-changed", f"{diff(c(source), s0)}", **d)
    now_keys = [(s.id, e.id) for s in target.sections for e in s.entries if isinstance(e, Entry)]
    ctx.check(len(set(now_keys)) == len(now_keys), "duplicate-entry", f"{now_keys}", **d)
    ctx.eq([k for k in now_keys if k in told], tkeys, "order-changed", **d)
    ctx.eq(set(now_keys), set(tkeys) | set(src), "entries-lost-or-extra", **d)
    ctx.check([id(e) for s in target.sections for e in s.entries if isinstance(e, Comment)] == tcomments, "comments-changed", "", **d)
    left = [s for s in target.sections if any(s is x for x in tsecs)]
    ctx.check(len(left) == len(tsecs) and all(a is b for a, b in zip(left, tsecs)), "sections-changed", "", **d)
    now = index(target)
    added = changed = 0
    for k in now_keys:
        s, e = now[k]
        if k not in told:
            added += 1
            ctx.check(c(e) == c(src[k][1]), "added-differs", f"{k}", **d)
        elif use and k in src and told[k][1] != src[k][1]:
            changed += 1
            ctx.check(c(e) == c(src[k][1]) and s is told[k][0], "not-overridden", f"{k}", **d)
        else:
            ctx.check(c(e) == told[k][2] and s is told[k][0], "target-entry-changed", f"{k}", **d)
    heads = 0
    for s, old in zip(left, thead):
        if (s.id, s.comment, c(s.meta)) != old:
            heads += 1
            ok = [(x.comment, c(x.meta)) for x in source.sections if x.id == s.id and any((x.id, e.id) in now and now[x.id, e.id][0] is s for e in x.entries if isinstance(e, Entry))]
            ctx.check(use and s.id == old[0] and (s.comment, c(s.meta)) in ok, "section-changed", f"{old} -> {(s.id, s.comment, s.meta)}", **d)
    if use:
        for s in left:
            own = [x for x in source.sections if x.id == s.id and any((x.id, e.id) in now and now[x.id, e.id][0] is s for e in x.entries if isinstance(e, Entry))]
            if own:
                ctx.check((s.comment, c(s.meta)) in [(x.comment, c(x.meta)) for x in own], "section-not-updated", f"{s!r}", **d)
                ctx.ev("updated_or_same_sections")
    for s in target.sections:
        if not any(s is x for x in tsecs):
            ctx.check(s.entries and all(isinstance(e, Entry) and (s.id, e.id) not in told for e in s.entries), "new-section-entries", f"{s!r}", **d)
            ctx.check(any(x.id == s.id and x.comment == s.comment and c(x.meta) == c(s.meta) for x in source.sections), "new-section-head", f"{s!r}", **d)
            ctx.check(not any(s is x or s.entries is x.entries for x in source.sections), "new-section-shared", "", **d)
            ctx.ev("new_sections")
    # entries with the same section heading stay with it
    for k in now_keys:
        if k not in told and not use:
            ctx.check(now[k][0].comment == src[k][0].comment, "added-under-other-heading", f"{k}", **d)
    placement(ctx, target, source, tsecs, told, now, d)
    ctx.check(count == added + changed + heads, "count", f"{count} != {added} + {changed} + {heads}", **d)
    ctx.ev("added", added)
    ctx.ev("overridden", changed)
    ctx.ev("kept", len(told))
    ctx.ev("section_heads_changed", heads)
    after = c(target)
    if not added + changed + heads:
        ctx.check(after == t0, "changed-but-not-counted", f"{diff(after, t0)}", **d)
        ctx.ev("nothing_to_do")
    again = add_entries(target, source, use_source_entries=use)
    ctx.check(again == 0, "second-count", f"{again}", **d)
    ctx.check(c(target) == after and c(source) == s0, "second-changes", f"{diff(c(target), after)}", **d)


def placement(ctx, target, source, tsecs, told, now, d):
    """Added entries go after the one they follow in the source, new sections after the last one with a match."""
    order = [id(s) for s in tsecs]
    cur = None
    for x in source.sections:
        prev, new = None, []
        for e in x.entries:
            if not isinstance(e, Entry):
                continue
            k = (x.id, e.id)
            s = now[k][0]
            if k in told:
                cur = s
            elif id(s) not in order:
                if id(s) not in new:
                    new.append(id(s))
            else:
                at = next(i for i, y in enumerate(s.entries) if y is now[k][1])
                if prev and prev[0] is s:
                    ctx.check(s.entries[at - 1] is prev[1], "added-not-after-previous", f"{k}", **d)
                    ctx.ev("placed_after_previous")
                else:
                    ctx.check(not any(isinstance(y, Comment) or (s.id, y.id) in told for y in s.entries[at + 1:]), "added-not-last", f"{k}", **d)
                    ctx.ev("placed_last")
            prev = now[k]
        ctx.check(len(new) < 2, "new-sections", "", **d)
        if new:
            order.insert(order.index(id(cur)) + 1 if cur else 0, new[0])
            cur = next(s for s in target.sections if id(s) == new[0])
            ctx.ev("placed_sections")
    ctx.check(order == [id(s) for s in target.sections], "new-section-place", f"{[s.id for s in target.sections]}", **d)


def fam_pair(ctx):
    target, source = pair(ctx.rng)
    use = ctx.rng.random() < 0.5
    d = dict(target=repr(target), source=repr(source), use=use)
    ctx.case(repr(d))
    judge(ctx, target, source, use, d)


def fam_history(ctx):
    """Several sources added one after another."""
    rng = ctx.rng
    target, source = pair(rng)
    sources = [source] + [res.resource(rng) for _ in range(rng.choice([1, 2, 3]))]
    use = rng.random() < 0.5
    ctx.case(repr((target, sources, use)))
    for k, s in enumerate(sources):
        judge(ctx, target, deepcopy(s), use if rng.random() < 0.8 else not use, dict(target=repr(target), source=repr(s), step=k))
        ctx.ev("steps")


def fam_files(ctx):
    """Resources parsed from files of each format."""
    from moz.l10n.formats import Format
    from moz.l10n.resource import parse_resource

    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    a = parse_resource(Format[fmt], files.source(rng, fmt, True))
    b = parse_resource(Format[fmt], files.source(rng, fmt, True))
    for r in (a, b):
        seen = set()
        for s in r.sections:
            s.entries = [e for e in s.entries if isinstance(e, Comment) or not ((s.id, e.id) in seen or seen.add((s.id, e.id)))]
    use = rng.random() < 0.5
    d = dict(target=repr(a), source=repr(b), use=use)
    ctx.case(repr(d))
    judge(ctx, a, b, use, d)
    ctx.ev("file_pairs")


FAMILIES = [
    Family("pair", fam_pair, 15000, 500000, need=["added", "placed_after_previous", "placed_last", "placed_sections", "overridden", "kept", "section_heads_changed", "new_sections", "nothing_to_do", "updated_or_same_sections"]),
    Family("history", fam_history, 4000, 120000, need=["steps", "added"]),
    Family("files", fam_files, 1000, 30000, need=["file_pairs", "added"]),
]
