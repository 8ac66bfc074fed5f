"""Release builds: every source entry, localized where possible, and nothing else."""
from __future__ import annotations

import json
import os
import random
import shutil
import tempfile
from dataclasses import replace
from os.path import exists, join, relpath

from moz.l10n.bin.build import cli as build_cli
from moz.l10n.bin.build_file import cli as file_cli
from moz.l10n.formats import Format
from moz.l10n.model import Entry
from moz.l10n.resource import parse_resource

from .. import proj as P
from ..core import Family
from ..model import canon

RULE = "distinct by the contents of all source and localization files; seeded random projects"
ASSUMPTIONS = ["source files have unique identifiers", "the target directory is not the source directory",
               "the attributes of a Fluent message may be in any order",
               "the metadata of a section comes from the localization's section if it has one, and otherwise from the source"]

CODES = ["de", "fr", "pt-BR", "sr-Latn", "ja"]


def run(ctx, cmd, args):
    """The exception that ended the command, or None."""
    with P.Log() as log:
        try:
            cmd.main(args, standalone_mode=False)
        except SystemExit as e:
            return e, log
    return None, log


def content(path, fmt):
    res = parse_resource(path)
    return {
        "format": res.format.name,
        "meta": sorted((m.key, str(m.value)) for m in res.meta),
        "comments": [x for x in [res.comment, *(s.comment for s in res.sections), *(e.comment for s in res.sections for e in s.entries)] if x],
        "entries": [(s.id, e.id, canon(e.value), sorted((k, canon(v)) for k, v in e.properties.items()), sorted((m.key, str(m.value)) for m in e.meta))
                    for s in res.sections for e in s.entries if isinstance(e, Entry)],
        "sections": [(s.id, sorted((m.key, str(m.value)) for m in s.meta)) for s in res.sections if s.entries or s.meta],
    }


def ids(fmt, e):
    """An array has an entry for each of its items."""
    id = e.sid + e.id
    return [(*id, "0"), (*id, "1")] if fmt == "android" and e.kind == "array" else [id]


def merged(fmt, src, loc):
    """What the documentation says that a build has: (entries, number, missing identifiers)."""
    src = [e for e in src if not e.obsolete]
    have = {e.key(): e for e in loc or () if not e.obsolete}
    out, missing = [], []
    for e in src:
        t = have.get(e.key())
        if fmt == "fluent" and t is not None and e.id[0][0] != "-":
            if set(e.attrs) <= set(t.attrs):
                t = replace(t, attrs={k: v for k, v in t.attrs.items() if k in e.attrs})
                if not t.attrs and not t.value:
                    t = None
            else:
                t = None
        if t is None:
            for id in ids(fmt, e):
                missing.append(list(id) if len(id) > 1 else id[0])
            if fmt == "fluent":
                continue
            t = e
        out.append(t)
    return out, sum(len(ids(fmt, e)) for e in src), missing


def check_file(ctx, fmt, src, loc, path, lc, tmp):
    """The file at path is the build of these source and localization records."""
    es, n, missing = merged(fmt, src, loc)
    ctx.check(exists(path), "not-written", relpath(path, tmp))
    raw = P.read(path).decode("utf-8")
    ctx.check(P.MARK not in raw, "comment-left", fmt, text=raw)
    if fmt == "xliff":
        heads = {e.sid[0]: "en" for e in src} | {e.sid[0]: lc for e in loc or ()}
    else:
        heads = {}
    want = join(tmp, "want" + P.EXT[fmt])
    P.put(want, P.render(fmt, es, None, lc if loc is not None else "en", False, heads))
    if fmt == "plain_json" and not es:
        return es, n, missing
    if raw.strip() == "" and not es:
        ctx.ev("empty_file")
    else:
        a, b = content(path, fmt), content(want, fmt)
        for part in a:
            ctx.eq(a[part], b[part], "content-" + part, fmt=fmt, text=raw, source=P.render(fmt, src), l10n=loc and P.render(fmt, loc))
    ctx.ev(fmt)
    ctx.ev("entries", len(es))
    ctx.ev("from_localization", n - len(missing))
    ctx.ev("from_source" if fmt != "fluent" else "left_out", len(missing))
    return es, n, missing


BINARY = [b"\x89PNG\r\n\x1a\n\x00\xff", b"plain text\n", b"<html><p>x</html>", b""]


def fam_project(ctx):
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c23-")
    cwd = os.getcwd()
    try:
        locales = rng.sample(CODES, rng.choice([1, 2, 3]))
        root = join(tmp, "repo")
        base = rng.choice([root, join(root, "l10n"), join(tmp, "l10n-repo")])
        ref = rng.choice(["en", "en-US", "src/locales/en"])
        toml = ['basepath = "."', f"locales = {json.dumps(rng.sample(CODES, rng.choice([0, 3, 5])))}"]
        files = {}  # relative path -> (format, source records, only for these locales)
        groups = []
        for gi in range(rng.choice([1, 2, 3])):
            d = rng.choice(["", f"g{gi}/", f"g{gi}/x y/"]) if gi else "g0/"
            if any(d == g[0] for g in groups):
                continue
            only = rng.sample(CODES, rng.choice([1, 2, 4])) if rng.random() < 0.2 else None
            groups.append((d, only))
        groups.sort(key=lambda g: len(g[0]))
        for d, only in groups:
            pat = d + ("*.*" if d == "" else "**")
            toml.append(f'[[paths]]\nreference = "{ref}/{pat}"\nl10n = "{{l10n_base}}/{{locale}}/{pat}"' + (f"\nlocales = {json.dumps(only)}" if only else ""))
            for _ in range(rng.choice([1, 2, 3])):
                fmt = rng.choice(P.FORMATS)
                name = d + ("" if d == "" else rng.choice(["", "", "sub/"])) + rng.choice(["a", "b", "main", "x.y", "é"]) + P.EXT[fmt]
                if name not in files:
                    files[name] = (fmt, P.entries(rng, fmt), only)
            if rng.random() < 0.4:
                files[d + rng.choice(["logo.png", "notes.txt", "x.html"])] = (None, rng.choice(BINARY), only)
        P.put(join(root, "l10n.toml"), "\n".join(toml) + "\n")
        src_dir = join(root, ref)
        loc = {}
        for name, (fmt, src, only) in files.items():
            P.put(join(src_dir, name), src if fmt is None else P.render(fmt, src, rng))
            for lc in locales:
                if rng.random() < 0.75:
                    loc[lc, name] = rng.choice(BINARY) if fmt is None else P.localize(rng, fmt, src, lc)
                    P.put(join(base, lc, name), loc[lc, name] if fmt is None else P.render(fmt, loc[lc, name], rng, lc))
        for lc in locales:  # what is not in the source is left alone
            if rng.random() < 0.4:
                P.put(join(base, lc, rng.choice(["g0/only-here.ftl", "zz/more.properties", "root.txt"])), "x = y\n")
        P.put(join(base, "nl", "g0", "a.ftl"), "a = not requested\n")
        if rng.random() < 0.1:
            P.put(join(src_dir, "other", "u.ftl"), "u = Not in the configuration\n") if "" not in [g[0] for g in groups] else None
        target = join(tmp, "out")
        in_place = rng.random() < 0.1 and base != root
        if in_place:
            target = base
            ctx.ev("in_place")
        before = P.snapshot(tmp)
        ctx.case(repr((locales, files, loc, toml, base[len(tmp):])))
        coverage = rng.random() < 0.5
        how = rng.choice(["absolute", "relative"])
        if how == "relative":
            os.chdir(rng.choice([tmp, root]))
        p = (lambda x: relpath(x)) if how == "relative" else (lambda x: x)
        pt = p(target) if not in_place or rng.random() < 0.5 else join(p(target), "../" + os.path.basename(target)) + "/"
        args = ["--config", p(join(root, "l10n.toml")), "--base", p(base), "--target", pt, "--locales", rng.choice([",", ", "]).join(rng.sample(locales, len(locales)))]
        args += ["--coverage"] * coverage
        verbose = rng.choice([[], ["-v"], ["-vv"]])
        args += verbose
        if rng.random() < 0.3 and not in_place:  # an earlier build's files are replaced
            for name in rng.sample(sorted(files), min(2, len(files))):
                P.put(join(target, locales[0], name), "old contents\n" * 50)
                ctx.ev("replaced")
            old = True
        else:
            old = in_place
        e, log = run(ctx, build_cli, args)
        ctx.check(e is None, "exit", str(e))
        after = P.snapshot(tmp)
        out = target
        inside = {q: v for q, v in after.items() if q == out or q.startswith(out + "/")}
        made = {join(out, lc, n) for lc in locales for n in [*files, "coverage.json"]} if in_place else inside
        diff = [q for q in P.changed(before, after) if q not in made and after.get(q) != "directory"]
        ctx.eq(diff, [], "input-changed")
        ctx.ev("inputs_unchanged", len(before))
        want = set()
        cover = {lc: {} for lc in locales}
        counts = {}
        for name, (fmt, src, only) in files.items():
            for lc in locales:
                if only is not None and lc not in only:
                    if not old:
                        ctx.check(not exists(join(out, lc, name)), "not-for-locale", name)
                    continue
                path = join(out, lc, name)
                want.add(path)
                if fmt is None:
                    ctx.check(P.read(path) == loc.get((lc, name), src), "copy", name)
                    ctx.ev("copied")
                else:
                    _, n, missing = check_file(ctx, fmt, src, loc.get((lc, name)), path, lc, tmp)
                    cover[lc][name] = {"total": n, "missing": missing}
                    counts.setdefault(lc, [0, 0])[fmt != "fluent"] += len(missing)
        if verbose:
            lines = [x for _, x in log.lines]
            told = {}
            for x in lines[len(lines) - lines[::-1].index("----"):]:
                if x.startswith(" "):
                    told[lc].append(int(x.split()[1]))
                else:
                    told[lc := x.rstrip(":")] = []
            ctx.eq(told, counts, "counts")
            ctx.ev("counted_messages", sum(map(sum, counts.values())))
        if coverage:
            for lc in locales:
                path = join(out, lc, "coverage.json")
                want.add(path)
                with open(path, encoding="utf-8") as f:
                    ctx.eq(json.load(f), cover[lc], "coverage", lc=lc)
                ctx.ev("coverage", len(cover[lc]))
        if not old:
            ctx.eq({q for q, v in inside.items() if v != "directory"}, want, "files-written")
        # again, over the first
        first = {q: v[0] for q, v in inside.items() if v != "directory" and not (in_place and q.endswith("/coverage.json"))}
        e, _ = run(ctx, build_cli, args)
        ctx.check(e is None, "exit-again", str(e))
        ctx.eq({q: P.read(q) for q in first}, first, "again")
        ctx.ev("built_twice")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def fam_file(ctx):
    """moz-l10n build-file"""
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c23-")
    cwd = os.getcwd()
    try:
        fmt = rng.choice([*P.FORMATS, None])
        ext = P.EXT[fmt] if fmt else ".png"
        src = P.entries(rng, fmt) if fmt else rng.choice(BINARY)
        k = rng.choice(["none", "absent", "given", "given", "given"])
        loc = None
        sp, lp, tp = join(tmp, "s" + ext), join(tmp, "l" + ext), join(tmp, rng.choice(["out/de/x", "t", "out/f"]) + ext)
        P.put(sp, P.render(fmt, src, rng) if fmt else src)
        if k == "given":
            loc = P.localize(rng, fmt, src, "de") if fmt else rng.choice(BINARY)
            P.put(lp, P.render(fmt, loc, rng, "de") if fmt else loc)
        ctx.case(repr((fmt, src, loc, k, tp[len(tmp):])))
        if rng.random() < 0.3:
            P.put(tp, "old\n" * 90)
        rel = rng.random() < 0.5
        if rel:
            os.chdir(tmp)
        p = (lambda x: relpath(x)) if rel else (lambda x: x)
        cov = join(tmp, "cov", "de") if rng.random() < 0.4 else None
        earlier = {}
        if cov and rng.random() < 0.5:
            earlier = {"earlier.ftl": {"total": 3, "missing": ["a"]}, relpath(tp, cov): {"total": 99, "missing": []}}
            P.put(join(cov, "coverage.json"), json.dumps(earlier))
        before = P.snapshot(tmp)
        args = ["--source", p(sp), "--target", p(tp)] + (["--l10n", p(lp)] if k != "none" else []) + (["--coverage-base", p(cov)] if cov else [])
        e, _ = run(ctx, file_cli, args)
        ctx.check(e is None, "exit", str(e))
        after = P.snapshot(tmp)
        ctx.check({q for q in P.changed(before, after) if after.get(q) != "directory"} <= {tp, cov and join(cov, "coverage.json")}, "input-changed", f"{P.changed(before, after)}")
        if fmt is None:
            ctx.check(P.read(tp) == (loc if loc is not None else src), "copy", "build-file")
            n, missing = 0, []
            ctx.ev("copied")
        elif k == "none":
            live = [x for x in src if not x.obsolete]
            raw = P.read(tp).decode()
            ctx.check(P.MARK not in raw, "comment-left", fmt, text=raw)
            want = join(tmp, "want" + ext)
            P.put(want, P.render(fmt, live, None, "en", False))
            a, b = content(tp, fmt), content(want, fmt)
            for part in a:
                ctx.eq(a[part], b[part], "content-" + part, fmt=fmt, text=raw, source=P.render(fmt, src))
            n, missing = sum(len(ids(fmt, x)) for x in live), []
            ctx.ev("source_only")
        else:
            _, n, missing = check_file(ctx, fmt, src, loc, tp, "de", tmp)
        if cov:
            with open(join(cov, "coverage.json"), encoding="utf-8") as f:
                ctx.eq(json.load(f), {**earlier, relpath(tp, cov): {"total": n, "missing": missing}}, "coverage")
            ctx.ev("coverage")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


BROKEN = {"fluent": "a = { \n", "xliff": "<xliff version='1.2'><file original='a'><body><trans-unit id='a'></body>", "android": "<resources><string name='a'>x</resources>", "plain_json": '{"a": "b"', "webext": '{"a": {"message": ', "gettext": 'foo "a"\n', "properties": None, "dtd": "<!ENTITY a b>\n", "inc": "#define a\nfoo\n", "ini": "x\n"}


def fam_broken(ctx):
    """A file that cannot be read stops the build without damage to any file that is there."""
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c23-")
    try:
        fmt = rng.choice([f for f in BROKEN if BROKEN[f] is not None])
        src = P.entries(rng, fmt)
        which = rng.choice(["source", "l10n"])
        sp, lp, tp = (join(tmp, x + P.EXT[fmt]) for x in ("s", "l", "t"))
        P.put(sp, BROKEN[fmt] if which == "source" else P.render(fmt, src, rng))
        P.put(lp, BROKEN[fmt] if which == "l10n" else P.render(fmt, P.localize(rng, fmt, src, "de"), rng, "de"))
        if rng.random() < 0.15:  # can be read, but not written
            fmt, which = "ini", "source"
            sp, lp, tp = (join(tmp, x + ".ini") for x in ("s", "l", "t"))
            P.put(sp, "[A[B]\nx = y\n")
            P.put(lp, "[A]\nx = y\n")
            ctx.ev("not_writable")
        in_place = rng.random() < 0.3
        if in_place:
            tp = lp
        else:
            P.put(tp, "old contents\n")
        ctx.case(repr((fmt, src, which, in_place)))
        before = P.snapshot(tmp)
        try:
            e, _ = run(ctx, file_cli, ["--source", sp, "--l10n", lp, "--target", tp])
        except Exception as x:  # the error is for the caller to see
            e = x
        if e is None:
            ctx.check(which == "source", "broken-accepted", fmt)
            ctx.ev("copied_as_is")
            return
        ctx.eq(P.changed(before, P.snapshot(tmp)), [], "damage")
        ctx.ev("refused_" + which)
    finally:
        shutil.rmtree(tmp)


FAMILIES = [
    Family("project", fam_project, 500, 12000, need=[*P.FORMATS, "in_place", "entries", "from_localization", "from_source", "left_out", "copied", "coverage", "built_twice", "counted_messages", "inputs_unchanged", "replaced"]),
    Family("file", fam_file, 1500, 40000, need=[*P.FORMATS, "source_only", "coverage", "copied", "from_localization", "from_source"]),
    Family("broken", fam_broken, 200, 3000, need=["refused_source", "refused_l10n", "not_writable"]),
]
