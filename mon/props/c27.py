"""Migrations: the entries they define are added, and everything else stays."""
from __future__ import annotations

import json
import os
import shutil
import tempfile
from os.path import dirname, exists, join, relpath

from moz.l10n.bin.migrate import apply_migrations, cli as migrate_cli
from moz.l10n.migrate import Migrate, all_migrations, copy, entry
from moz.l10n.model import Entry, Expression, Markup, PatternMessage, VariableRef
from moz.l10n.paths import L10nConfigPaths, L10nDiscoverPaths
from moz.l10n.resource import parse_resource

from .. import proj as P
from ..core import Family
from ..model import canon, diff
from . import c27b
from .c25 import unordered, words

RULE = "distinct by the files and the migration; seeded random projects"
ASSUMPTIONS = ["no entry is copied from one that the same migration adds later", "an entry of a section that its file does not have is an error"]

CODES = ["de", "fr", "pt-BR", "sr-Latn", "ja"]
BAD = {"fluent": "a = {\n", "android": "<resources>", "xliff": "<xliff", "gettext": 'foo "a"\n', "ini": "x\n", "dtd": "<!ENTITY a>\n", "inc": "foo\n", "plain_json": "{", "webext": "{"}
FORMATS = ["fluent", "fluent", "properties", "dtd", "inc", "ini", "gettext", "plain_json", "webext", "android", "xliff"]


def etuple(id, value, props, comment, meta):
    return ("entry", tuple(id), unordered(canon(value)), unordered(canon(props)), words(comment), tuple(sorted((m.key, m.value) for m in meta)))


def view(res):
    """[section id, comment, metadata, [entries and comments]]"""
    return [words(res.comment), tuple(sorted((m.key, m.value) for m in res.meta)), [
        [s.id, words(s.comment), canon(s.meta), [etuple(e.id, e.value, e.properties, e.comment, e.meta) if isinstance(e, Entry) else ("comment", words(e.comment)) for e in s.entries]]
        for s in res.sections]]


def frozen(v):
    return (v[0], v[1], tuple((s[0], s[1], s[2], tuple(s[3])) for s in v[2] if s[3] or s[0] or s[1]))


def find(v, id):
    for s in v[2]:
        if id[:len(s[0])] == s[0]:
            for e in s[3]:
                if e[0] == "entry" and s[0] + e[1] == id:
                    return e
    return None


def insert(v, id, e, after, fmt):
    """False if there is no section for the entry."""
    own = max((s[0] for s in v[2] if id[:len(s[0])] == s[0]), key=len, default=None)
    if own is None or fmt == "xliff" and len(id) - len(own) > 1:
        return False
    new = ("entry", id[len(own):], *e[2:])
    secs = [s for s in v[2] if s[0] == own]
    best = None
    for s in secs:
        for i, x in enumerate(s[3]):
            if x[0] == "entry" and own + x[1] in after:
                best = s, i
    if best:
        best[0][3].insert(best[1] + 1, new)
    else:
        secs[-1][3].append(new)
    return True


def grouped(es):
    """Entries in the order of a tree."""
    first = {}
    for e in es:
        for i in range(1, len(e[1]) + 1):
            first.setdefault(e[1][:i], len(first))
    return sorted(es, key=lambda e: [first[e[1][:i]] for i in range(1, len(e[1]) + 1)])


def msg(rng, fmt, tag):
    p = [P.value(rng, "none", tag) if False else " ".join([tag] + [rng.choice(P.WORDS) for _ in range(rng.choice([0, 1, 2]))])]
    if fmt == "fluent" and rng.random() < 0.4:
        p = [p[0] + " ", Expression(VariableRef("user"))]
    return PatternMessage(p)


EMPTY = unordered(canon(PatternMessage([])))
NOTHING = unordered(canon(PatternMessage([Expression("")])))  # what can be written as the value of an entry with nothing else


class Boom(Exception):
    pass


def function(rng, fmt, src_ids, ref, others, id):
    """(migration function, oracle: locale, views -> (entry, ids to insert after) or None or exception)"""
    k = rng.random()
    if fmt == "xliff":  # an entry needs its source
        k = rng.choice([0.6, 0.7, 0.7, 0.7, 0.99])
    tag = "new" + str(rng.randint(0, 99))
    m = msg(rng, fmt, tag)
    e = lambda m_, props={}, comment="", meta=(): ("entry", (), unordered(canon(m_)), unordered(canon(props)), words(comment), ())  # noqa: E731
    after = set(rng.sample(src_ids, min(len(src_ids), rng.choice([0, 1, 2]))))
    if k < 0.1:
        s = " ".join([tag, rng.choice(P.WORDS)])
        return (lambda res, ctx: s), (lambda lc, v, tid: (e(PatternMessage([s])), {tid})), "string"
    if k < 0.25:
        return (lambda res, ctx: m), (lambda lc, v, tid: (e(m), {tid})), "message"
    if k < 0.4:
        given = {i[0] if len(i) == 1 and rng.random() < 0.5 else i for i in after}
        return (lambda res, ctx: (m, given)), (lambda lc, v, tid: (e(m), after)), "after"
    if k < 0.5:
        src = rng.choice(src_ids) if src_ids else ("none",)
        c = "" if fmt in ("plain_json",) else rng.choice(["", "a note"])
        return (lambda res, ctx: Entry(src, m, comment=c)), (lambda lc, v, tid: (e(m, {}, c), {src})), "entry"
    if k < 0.6:
        pick = rng.choice(CODES)
        return (lambda res, ctx: m if ctx.locale == pick else None), (lambda lc, v, tid: (e(m), {tid}) if lc == pick else None), "some_locales"
    if k < 0.65:

        def stop(res, ctx):
            raise StopIteration

        return stop, (lambda lc, v, tid: None), "stop"
    if k < 0.85 and others:
        # copied from a file of the same format
        oref, oids = rng.choice(others)
        src = rng.choice(oids) if rng.random() < 0.85 else ("nothere",)
        here = oref == ref and rng.random() < 0.5
        vo = rng.random() < 0.3 and fmt != "xliff"
        rep = (lambda x: x.replace("o", "0") if isinstance(x, str) else None) if rng.random() < 0.2 else None
        f = copy(None if here else oref, src if len(src) > 1 or rng.random() < 0.5 else src[0], value_only=vo, replace=rep)

        def want(lc, v, tid):
            ov = v.get(oref)
            x = ov and find(ov, src)
            if not x:
                return None
            x = ("entry", (), *x[2:])
            if fmt == "fluent" and x[2] == EMPTY and (vo or id[0][0] == "-"):
                x = (*x[:2], NOTHING, *x[3:])
            if rep:
                x = ("entry", (), subst(x[2]), subst(x[3]), *x[4:])
            return (("entry", (), x[2], ("dict",), "", ()) if vo else x), {src}

        return f, want, "copy"
    if k < 0.95 and fmt == "fluent":
        props = {n: msg(rng, fmt, tag + n) for n in rng.sample(["title", "label", "tooltip"], rng.choice([0, 1, 2]))}
        partial = rng.random() < 0.5
        lost = rng.random() < 0.3
        val = m if rng.random() < 0.7 or not props or id[0][0] == "-" else None
        c = rng.choice([None, "a note"])
        fprops = {n: (lambda res, ctx, p=p: p) if rng.random() < 0.5 else p for n, p in props.items()}
        if lost:
            fprops["zz"] = lambda res, ctx: None
        f = entry(val, fprops, allow_partial=partial, comment=c)

        def want(lc, v, tid):
            if lost and not partial:
                return None
            if val is None and not props:
                return None
            return e(val or PatternMessage([]), props, c or ""), set()

        return f, want, "entry()"
    return (lambda res, ctx: None), (lambda lc, v, tid: None), "none"


def subst(c):
    """What replacing o by 0 in all text does; only the parts of a pattern are replaced."""
    if isinstance(c, tuple):
        if c[:1] == ("list",):
            return ("list", *(x.replace("o", "0") if isinstance(x, str) else x for x in c[1:]))
        if c[:1] in (("pm",), ("sm",), ("dict",)) or (c and isinstance(c[0], (str, tuple)) and not c[:1] == ("expr",)):
            return tuple(subst(x) if isinstance(x, tuple) else x for x in c)
    return c


def project(rng, tmp):
    root = join(tmp, "r")
    kind = rng.choice(["config", "discover"])
    ref = rng.choice(["en", "en-US"]) if kind == "discover" else rng.choice(["en", "src/ref"])
    locales = rng.sample(CODES, rng.choice([1, 2, 3]))
    files = {}
    for _ in range(rng.choice([1, 2, 3])):
        fmt = rng.choice(FORMATS)
        name = rng.choice(["", "", "browser/", "x y/z/"]) + rng.choice(["a", "b", "main", "x.y"]) + P.EXT[fmt]
        if name not in files:
            files[name] = (fmt, P.entries(rng, fmt))
    if not any(n.endswith((".ftl", ".properties", ".dtd", ".json", ".xml", ".po", ".ini", ".inc", ".xliff")) for n in files):
        raise AssertionError
    state, also = {}, {}
    for n, (f, es) in files.items():
        P.put(join(root, ref, n), P.render(f, es, rng))
    for lc in locales:
        os.makedirs(join(root, lc), exist_ok=True)
        for n, (f, es) in files.items():
            p = join(root, lc, n)
            k = rng.random()
            if k < 0.15:
                state[lc, n] = "none"
            elif k < 0.22 and f in BAD:
                P.put(p, BAD[f])
                state[lc, n] = "bad"
            else:
                loc = P.localize(rng, f, es, lc)
                if f == "plain_json" and not loc:  # {} is as much a file of another format
                    loc = es[:1]
                P.put(p, P.render(f, loc, rng, lc))
                state[lc, n] = "ok"
                also.setdefault(n, set()).update(e.key() for e in loc)
    # a localized file, so that the locales are found
    for lc in locales:
        P.put(join(root, lc, "other.properties"), "x = y\n")
    if kind == "config":
        P.put(join(root, "l10n.toml"), f'basepath = "."\nlocales = {json.dumps(locales)}\n[[paths]]\nreference = "{ref}/**"\nl10n = "{{locale}}/**"\n')
        mk = lambda: L10nConfigPaths(join(root, "l10n.toml"))  # noqa: E731
    else:
        mk = lambda: L10nDiscoverPaths(root)  # noqa: E731
    refname = (lambda n: join(ref, n)) if kind == "config" else (lambda n: n)
    return root, kind, ref, locales, files, state, also, mk, refname


def snapshot_views(root, locales, files, refname):
    out = {}
    for lc in locales:
        for n, (f, _) in files.items():
            p = join(root, lc, n)
            if exists(p):
                try:
                    out.setdefault(lc, {})[refname(n)] = view(parse_resource(p))
                except Exception:
                    pass
    return out


def empty(root, ref, n, fmt):
    """A new file for a locale."""
    if fmt in ("ini", "xliff"):
        v = view(parse_resource(join(root, ref, n)))
        for s in v[2]:
            s[3].clear()
        return v
    return ["", (), [[(), "", ("list",), []]]]


def fam_apply(ctx):
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c27-")
    cwd = os.getcwd()
    try:
        root, kind, ref, locales, files, state, also, mk, refname = project(rng, tmp)
        views = snapshot_views(root, locales, files, refname)
        plan, oracle, desc = {}, {}, []
        boom = None
        targets = {}
        for n in rng.sample(sorted(files), rng.randint(1, len(files))):
            fmt, es = files[n]
            src_ids = [e.sid + e.id for e in es if not (fmt == "android" and e.kind == "array")]
            used = {e.key() for e in es} | also.get(n, set())
            ids = targets[n] = []
            for _ in range(rng.choice([1, 2, 3])):
                if rng.random() < 0.3 and src_ids:
                    id = rng.choice(src_ids)  # there already, in some locales
                else:
                    sid = rng.choice([e.sid for e in es])
                    x = P.ident(rng, fmt)
                    if P.clash(fmt, used, sid, x):
                        continue
                    used.add((sid, x))
                    id = sid + x
                if id not in ids:
                    ids.append(id)
        for n, ids in targets.items():
            fmt, es = files[n]
            src_ids = [e.sid + e.id for e in es if not (fmt == "android" and e.kind == "array")]
            # copies come from entries that this migration does not add
            others = [(refname(o), [i for i in [e.sid + e.id for e in oes if not e.kind] if i not in targets.get(o, ())]) for o, (of, oes) in files.items() if of == fmt]
            others = [o for o in others if o[1]]
            m, want = {}, []
            for id in ids:
                f, w, what = function(rng, fmt, src_ids, refname(n), others, id)
                key = id[0] if len(id) == 1 and rng.random() < 0.5 else id
                m[key] = f
                want.append((id, w, what))
                desc.append((n, id, what))
            plan[refname(n)] = m
            oracle[n] = want
        if rng.random() < 0.12 and plan:
            n = rng.choice(sorted(oracle))
            lc = rng.choice(locales)
            boom = (n, lc)
            how = rng.choice(["raises", "unwritable"]) if files[n][0] != "android" else "raises"
            bad = PatternMessage([Markup("open", "b"), Expression("x", "nofunction")])

            def f(res, ctx_, how=how, lc=lc):
                if ctx_.locale != lc:
                    return None
                if how == "raises":
                    raise Boom
                return bad

            x = ("zzboom",) if files[n][0] not in P.SIDS else None
            if x is None or how == "unwritable" and files[n][0] == "xliff":
                boom = None
            else:
                plan[refname(n)][x] = f
        ctx.case(repr((sorted((q[len(tmp):], v[0]) for q, v in P.snapshot(tmp).items() if v != "directory"), desc, kind))[:30000])
        ctx.ev(kind)
        if rng.random() < 0.3 and kind == "discover":
            os.chdir(root)
            paths = L10nDiscoverPaths(".")
        else:
            paths = mk()
        del all_migrations[:]
        mig = Migrate(plan, paths if rng.random() < 0.7 else (join(root, "l10n.toml") if kind == "config" else root))
        # what should be there
        expected, broken = {}, set()
        for n in [n for n in files if n in oracle]:
            fmt = files[n][0]
            for lc in locales:
                path = join(root, lc, n)
                st = state[lc, n]
                if st == "bad":
                    ctx.ev("unreadable_target")
                    continue
                v = views.get(lc, {}).get(refname(n))
                import copy as _copy

                v = _copy.deepcopy(v) if v is not None else empty(root, ref, n, fmt)
                lcv = {**views.get(lc, {})}
                if refname(n) in lcv:
                    lcv[refname(n)] = v
                added, prev = [], []
                for id, w, what in oracle[n]:
                    prev_now = list(prev)
                    prev.append(id)
                    if find(v, id) is not None:
                        continue
                    r = w(lc, lcv, id)
                    if r is None:
                        continue
                    if not insert(v, id, r[0], {*r[1], *prev_now}, fmt):
                        broken.add((n, lc))
                        break
                    added.append(id)
                    ctx.ev(what)
                if (n, lc) not in broken and added:
                    expected[path] = (v, added, fmt, n, lc)
        before = P.snapshot(tmp)
        with P.Log() as log:
            dry = err = None
            try:
                dry = mig.apply(dry_run=True)
            except (Boom, ValueError, StopIteration) as e:
                err = e
            ctx.eq(P.changed(before, P.snapshot(tmp)), [], "dry-run-wrote")
            ctx.ev("dry_runs")
            paths2 = mk() if not (kind == "discover" and paths.ref_root[:1] != "/") else L10nDiscoverPaths(".")
            mig.set_paths(paths2)
            real = err2 = None
            try:
                real = mig.apply()
            except (Boom, ValueError, StopIteration) as e:
                err2 = e
        after = P.snapshot(tmp)
        delta = {p for p in P.changed(before, after) if after.get(p) != "directory"}
        fails = bool(broken) or boom is not None and state[boom[1], boom[0]] != "bad"
        ctx.check((err is not None) == fails and (err2 is not None) == fails, "failure", f"{err!r} {err2!r} {broken} {boom}", desc=desc)
        if fails:
            ctx.check(delta <= set(expected), "failure-changed", f"{delta - set(expected)}")
            for n, lc in [*broken, *([boom] if boom else [])]:
                ctx.check(join(root, lc, n) not in delta, "failure-damaged", f"{n} {lc}")
            ctx.ev("failures")
        else:
            ctx.eq(delta, set(expected), "files-changed", desc=desc, log=log.lines)
            norm = lambda r: {os.path.abspath(p): [e.id for e in es] for p, es in r.items()}  # noqa: E731
            ctx.eq({p: len(x) for p, x in norm(real).items()}, {p: len(x[1]) for p, x in expected.items()}, "changes-returned")
            ctx.eq(norm(dry), norm(real), "dry-run-differs")
        for p in delta & set(expected):
            v, added, fmt, n, lc = expected[p]
            got = view(parse_resource(p))
            if fmt == "plain_json":
                for w in (v, got):
                    w[2][0][3][:] = grouped(w[2][0][3])
            if fmt == "android":
                for w in (v, got):
                    w[1] = ()
            d = diff(frozen(got), frozen(v)) if fmt not in ("plain_json", "webext") or p in before else diff(tuple(got[2][0][3]), tuple(v[2][0][3]))
            ctx.check(d is None, "result", f"{fmt} {n} {lc}: {d}", desc=desc, before=before[p][0].decode() if p in before else None, after=P.read(p).decode())
            ctx.ev("added", len(added))
            ctx.ev("created" if p not in before else "extended")
            ctx.ev(fmt)
        if not fails:
            with P.Log():
                mig.set_paths(mk() if paths2.ref_root[:1] == "/" or kind == "config" else L10nDiscoverPaths("."))
                again = mig.apply()
            ctx.eq(again, {}, "again")
            ctx.eq(P.changed(after, P.snapshot(tmp)), [], "again-changed")
            ctx.ev("second_runs")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


SCRIPT = """
from moz.l10n.migrate import Migrate, copy, entry
from moz.l10n.model import PatternMessage
Migrate({%r: {"added-here": lambda res, ctx: PatternMessage(["for " + ctx.locale])}})
"""


def fam_cli(ctx):
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c27-")
    cwd = os.getcwd()
    try:
        root = join(tmp, "r")
        apart = rng.random() < 0.3
        refdir = join(tmp, "ref", "en") if apart else join(root, "en")
        P.put(join(refdir, "sub", "a.ftl"), "a = A\n")
        locales = rng.sample(CODES, 2)
        for lc in locales:
            P.put(join(root, lc, "other.ftl"), "o = O\n")
            if rng.random() < 0.6:
                P.put(join(root, lc, "sub", "a.ftl"), "# c\na = B\n")
        P.put(join(root, "l10n.toml"), f'basepath = "."\nlocales = {json.dumps(locales)}\n[[paths]]\nreference = "en/**/*.ftl"\nl10n = "{{locale}}/**/*.ftl"\n')
        use = "root" if apart else rng.choice(["root", "config"])
        ref_path = "en/sub/a.ftl" if use == "config" else "sub/a.ftl"
        what = rng.choice(["good", "good", "good", "dry", "raise", "syntax", "none", "path"])
        script = {"raise": "raise KeyError('x')", "syntax": "x = (", "none": "x = 1", "path": SCRIPT % "no/such.ftl"}.get(what, SCRIPT % ref_path)
        P.put(join(tmp, "m 1.py"), script)
        ctx.case(repr((locales, apart, use, what, sorted(P.snapshot(tmp)))))
        before = P.snapshot(tmp)
        rel = rng.random() < 0.5
        if rel:
            os.chdir(tmp)
        p = relpath if rel else (lambda x: x)
        args = [p(join(tmp, "m 1.py"))] + (["--config", p(join(root, "l10n.toml"))] if use == "config" else ["--root", p(root)]) + (["--ref", p(dirname(refdir))] if apart else []) + rng.choice([[], ["-v"], ["-q"]]) + (["-n"] if what == "dry" else [])
        rc = 0
        dwb, sys_dont = None, __import__("sys")
        dwb, sys_dont.dont_write_bytecode = sys_dont.dont_write_bytecode, True
        with P.Log() as log:
            try:
                migrate_cli.main(args, standalone_mode=False)
            except SystemExit as e:
                rc = e.code
        sys_dont.dont_write_bytecode = dwb
        after = P.snapshot(tmp)
        delta = {q for q in P.changed(before, after) if after.get(q) != "directory"}
        want = {join(root, lc, "sub", "a.ftl") for lc in locales} if what == "good" else set()
        ctx.eq(rc, 0 if what in ("good", "dry") else 2, "cli-status", log=log.lines, what=what)
        ctx.eq(delta, want, "cli-files", what=what)
        for lc in locales:
            q = join(root, lc, "sub", "a.ftl")
            if q in delta:
                ctx.eq(P.read(q).decode(), (before[q][0].decode() if q in before else "") + f"added-here = for {lc}\n", "cli-result")
        ctx.ev("cli_" + what)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


FAMILIES = [
    Family("apply", fam_apply, 2500, 60000, need=["config", "discover", "string", "message", "after", "entry", "some_locales", "copy", "entry()", "dry_runs", "second_runs", "failures", "unreadable_target", "added", "created", "extended", *sorted({*FORMATS})]),
    Family("cli", fam_cli, 150, 2000, need=["cli_good", "cli_dry", "cli_raise", "cli_syntax", "cli_none", "cli_path"]),
    *c27b.FAMILIES,
]
