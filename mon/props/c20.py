"""Discovery of the reference and localization directories of a repository."""
from __future__ import annotations

import os
import re
import shutil
import tempfile
from os.path import abspath, basename, dirname, join, normpath, relpath

from moz.l10n.paths import L10nDiscoverPaths, MissingSourceDirectoryError

from ..core import Family, Skip

RULE = "distinct by file tree and arguments; seeded random repository layouts"
ASSUMPTIONS = ["among reference directories that are equally good by the documented preference, any may be chosen; the same goes for localization directories with equally many locales",
               "all files of the reference directory that are not ignored are references, whatever their extension", "file names hold no braces",
               "when a locale's directory exists with both separators, the one with the hyphen is used"]

EXTS = [".dtd", ".ftl", ".inc", ".ini", ".json", ".properties", ".po", ".pot", ".xlf", ".xliff", ".xml"]
SOURCES = ["en-US", "en", "en_US", "en-us", "en_us"]
LOCALES = ["de", "fr", "pt-BR", "sr-Latn", "zh-Hant-HK", "ca-valencia", "ja-JP-mac", "fil", "en-GB", "es-MX", "uz-Cyrl-UZ", "nl"]
OTHERS = ["source1", "locales", "data", "x1", "PT-br", "en-USA", "e", "abcd", "de_", "DE", ".de", ".hidden", "de-de", "templates", "node_modules", "de-Latn-x"]
STEMS = ["a", "b", "main", "x.y", "é", "a b", "c++"]


def variants(lc):
    u = lc.replace("-", "_")
    return {lc, lc.lower(), u, u.lower()}


def is_locale(n):
    if n in ("ca-valencia", "ja-JP-mac"):
        return True
    parts = n.replace("_", "-").split("-")
    if not re.fullmatch("[a-z]{2,3}", parts[0]):
        return False
    rest = parts[1:]
    if rest and re.fullmatch("[A-Z][a-z]{3}", rest[0]):
        rest = rest[1:]
    if rest and re.fullmatch("[A-Z]{2}", rest[0]):
        rest = rest[1:]
    return not rest


def some_files(rng, pot, n=None):
    t = {}
    for _ in range(rng.choice([1, 2, 3]) if n is None else n):
        f = rng.choice(STEMS) + (rng.choice([".pot"]) if pot and rng.random() < 0.6 else rng.choice([e for e in EXTS if e != ".pot"]))
        if rng.random() < 0.25:
            t.setdefault(rng.choice(["subdir", "x y", "domain"]), {})[f] = ""
        else:
            t[f] = ""
    if rng.random() < 0.3:
        t[rng.choice(["README", "notes.txt", ".hidden.ftl", "Makefile.in"])] = ""
    return t


def layout(rng, deep=0):
    """A tree of directories, most of them like those of real repositories."""
    t = {}
    k = rng.random()
    if k < 0.45:
        ref = rng.choice(SOURCES)
        t[ref] = some_files(rng, rng.random() < 0.2) if rng.random() < 0.85 else {}
        if rng.random() < 0.25:
            t[rng.choice(SOURCES)] = some_files(rng, rng.random() < 0.3)
    if k < 0.3 or 0.45 < k < 0.75:
        for lc in rng.sample(LOCALES, rng.randint(1, 6)):
            d = lc.replace("-", "_") if rng.random() < 0.4 else lc
            t[d] = some_files(rng, False) if rng.random() < 0.7 else {}
            if "-" in lc and rng.random() < 0.05:
                t[lc] = {}
                t[lc.replace("-", "_")] = {}
    if rng.random() < 0.3:
        t.update(some_files(rng, False, 1))
    if deep < 3:
        for _ in range(rng.choice([0, 1, 1, 2]) if deep else rng.choice([1, 2, 3])):
            d = rng.choice(OTHERS)
            if d not in t:
                t[d] = layout(rng, deep + 1)
    return t


def write(root, t):
    os.makedirs(root, exist_ok=True)
    for n, v in t.items():
        if isinstance(v, dict):
            write(join(root, n), v)
        else:
            with open(join(root, n), "w"):
                pass


def scan(root):
    """directory -> (its subdirectories, its files), without what is hidden."""
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if not x.startswith(".")]
        out[d] = (list(ds), [f for f in fs if not f.startswith(".")])
    return out


def under(d, path):
    return path == d or path.startswith(d.rstrip("/") + "/")


def fam_layouts(ctx):
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c20-")
    cwd = os.getcwd()
    try:
        root = join(tmp, rng.choice(["r", "repo (1)", "en", "de", "a+b", "été"]))
        t = layout(rng)
        write(root, t)
        # the arguments
        kw = {}
        source = None
        if rng.random() < 0.2:
            source = rng.choice(["en", "en-US", "de", ["fr", "en"], ["pt-BR", "en-US", "en"], "sr-Latn", ["nl"]])
            kw["source_locale"] = source
        names = ["en-US", "en"] if source is None else [source] if isinstance(source, str) else source
        apart = rng.random() < 0.15
        rr = None
        if apart:
            rr = join(tmp, rng.choice(["source", "templates", "en-ref", "aa"]))
            write(rr, some_files(rng, rng.random() < 0.2) if rng.random() < 0.5 else {rng.choice(SOURCES): some_files(rng, False), **(some_files(rng, False) if rng.random() < 0.5 else {})})
        elif rng.random() < 0.35:
            rr = rng.choice([root, *scan(root)])
        ignore = rng.random() < 0.2
        how = rng.choice(["absolute", "absolute", "outside", "inside"])
        ctx.case((repr(t), repr(kw), rr and relpath(rr, tmp), how, basename(root)))
        if how == "absolute":
            arg = root + rng.choice(["", "", "/"])
        elif how == "outside":
            os.chdir(tmp)
            arg = rng.choice([basename(root), "./" + basename(root)])
        else:
            os.chdir(root)
            arg = rng.choice([".", "./"])
        ctx.ev(how)
        if rr is not None:
            kw["ref_root"] = rng.choice([rr, relpath(rr, root)])
            ctx.ev("ref_root")
        expect(ctx, tmp, root, arg, kw, names, rr, ignore)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def expect(ctx, tmp, root, arg, kw, names, rr, ignore):
    rng = ctx.rng
    dirs = scan(root)
    if rr is not None and not under(root, rr):
        dirs.update(scan(rr))
    l10n = [d for d, (_, fs) in dirs.items() if any(os.path.splitext(f)[1] in EXTS for f in fs)]
    pots = [d for d in l10n if any(f.endswith(".pot") for f in dirs[d][1])]
    score = {}
    for i, lc in enumerate(names):
        for v in variants(lc):
            score[v] = i
    refs = {join(d, s): score[s] for d, (ss, _) in dirs.items() for s in ss if s in score}
    if rr is not None:
        refs = {d: s for d, s in refs.items() if under(rr, d)}
        refs.setdefault(rr, len(names))
    good = [d for d in refs if any(under(d, p) for p in pots)] or [d for d in refs if any(under(d, p) for p in l10n)]
    try:
        paths = L10nDiscoverPaths(arg, **kw)
    except MissingSourceDirectoryError:
        ctx.check(not good, "reference-missed", f"{good}", tree=sorted(dirs), kw=repr(kw))
        ctx.ev("no_reference")
        return
    best = min((refs[d] for d in good), default=None)
    got = abspath(paths.ref_root)
    ctx.check(got in good and refs[got] == best, "reference-directory", f"{got} among {sorted((refs[d], d) for d in good)}", kw=repr(kw))
    ctx.ev("reference_found")
    if len([d for d in good if refs[d] == best]) == 1:
        ctx.ev("reference_unique")
    ref_root = got
    # localization directory
    bases = {}
    for d, (ss, _) in dirs.items():
        lds = [s for s in dirs_all(d) if is_locale(s) and s not in score]
        if lds and not under(ref_root, d):
            bases[d] = lds
    full = {d: ls for d, ls in bases.items() if any(p != d and under(d, p) for p in l10n)} or bases
    most = max((len(ls) for ls in full.values()), default=0)
    if not full:
        ctx.check(paths.base is None and paths.locales is None and paths.all_locales == set(), "base-without-locales", f"{paths.base}")
        ctx.ev("no_base")
        for call in (paths.all, lambda: paths.target("x", ref_required=False), lambda: paths.find_reference("x"), lambda: paths.format_target_path("{locale}/x", "de")):
            try:
                call()
                ctx.fail("base-required", "no base")
            except ValueError:
                pass
        paths.base = root if rng.random() < 0.5 else join(tmp, "target")
        base = paths.base
        locales = None
    else:
        base = abspath(paths.base or "")
        ctx.check(paths.base is not None and base in full and len(full[base]) == most, "localization-directory", f"{base} among {full}", kw=repr(kw))
        lds = full.get(base, [])
        locales = sorted({x.replace("_", "-") for x in lds})
        ctx.eq(paths.locales, locales, "locales", dirs=lds)
        ctx.eq(paths.all_locales, set(locales), "locales", dirs=lds)
        ctx.ev("locales", len(locales))
        low, hy = sum("_" in x for x in lds), sum("-" in x for x in lds)
        ctx.eq(paths.locale_dir_sep, "_" if low > hy else "-", "separator", dirs=lds)
    # reference files
    want = []
    for d, ds, fs in os.walk(ref_root):
        ds[:] = [x for x in ds if not x.startswith(".")]
        want += [join(d, f) for f in fs if not f.startswith(".")]
    force = []
    if ignore and want:
        # some of the files ignored, some that do not exist
        bad = rng.choice(want)
        with open(join(ref_root, ".l10n-ignore"), "w") as f:
            f.write("/" + relpath(bad, ref_root) + "\n")
        force = rng.sample([join(ref_root, "forced.ftl"), join(ref_root, "subdir", "n.po"), join(tmp, "elsewhere.ftl"), rng.choice(want), bad, ref_root + "x/a.ftl"], rng.randint(0, 4))
        base_ = paths.base
        try:
            paths = L10nDiscoverPaths(arg, force_paths=force, **kw)
        except MissingSourceDirectoryError:
            ctx.fail("reference-missed", "second time")
            return
        if paths.base is None:
            paths.base = base_
        if abspath(paths.ref_root) != ref_root:
            raise Skip()
        want.remove(bad)
        want = [*want, *(f for f in dict.fromkeys(force) if under(ref_root, f) and f not in want)]
        ctx.ev("ignored_and_forced")
    ctx.eq(sorted(abspath(p) for p in paths.ref_paths), sorted(want), "reference-paths", force=force)
    ctx.ev("references", len(want))
    tgt = {}
    for p in want:
        t = join(base, "{locale}", relpath(p, ref_root))
        tgt[p] = t[:-1] if t.endswith(".pot") else t
    ctx.eq({(abspath(r), abspath(t)): ls for (r, t), ls in paths.all().items()}, {(p, t): locales for p, t in tgt.items()}, "all-paths")
    sample = rng.sample(want, min(4, len(want)))
    own = {abspath(p): p for p in paths.ref_paths}
    for p in sample:
        rel = relpath(p, ref_root)
        args = [own[p], rel, "./" + rel] + ([rel[:-1]] if rel.endswith(".pot") and p[:-1] not in want else [])
        for a in args:
            if a != own[p] and abspath(a) in want and abspath(a) != p:
                continue
            t, ls = paths.target(a)
            ctx.eq((t and abspath(t), set(ls)), (tgt[p], set(locales or ())), "target", ref=a)
            ctx.ev("mapped")
        for lc in rng.sample(locales, min(3, len(locales))) if locales else ["de", "pt-BR"]:
            names_ = [lc, lc.replace("-", "_")]
            ex = [n for n in names_ if os.path.isdir(join(base, n))]
            dn = ex[0] if ex else lc if paths.locale_dir_sep == "-" else names_[1]
            want_t = tgt[p].replace("{locale}", dn)
            for a in args[:2]:
                t, ls = paths.target(a, locale=lc)
                ctx.eq((t and abspath(t), set(ls)), (want_t, {lc}), "target-for-locale", ref=a, locale=lc)
                t, _ = paths.target(a)
                ctx.eq(abspath(paths.format_target_path(t, lc)), want_t, "format-target", ref=a, locale=lc)
            amb = p.endswith(".po") and p + "t" in want or p.endswith(".pot") and p[:-1] in want
            for x in (want_t, relpath(want_t, base)):
                got = paths.find_reference(x)
                if not amb:
                    ctx.eq((got and abspath(got[0]), got and got[1]), (p, {"locale": lc}), "target-to-reference", target=x)
                    ctx.ev("there_and_back")
            for bad in (want_t + "x", join(base, dn), join(base, dn, "nope", relpath(p, ref_root)), join(base, "x" + relpath(want_t, base)), join(base, rng.choice(["LC", "de-de", "x1", "src", "en-USA", "abcd"]), relpath(p, ref_root)), join(dirname(base), relpath(want_t, base))):
                if bad not in (want_t,) and not any(bad == join(base, n, relpath(q, ref_root)) or bad == join(base, n, relpath(q, ref_root))[:-1] for q in want for n in [bad[len(base) + 1:].split("/")[0]] if is_locale(n)):
                    ctx.eq(paths.find_reference(bad), None, "outside", target=bad)
                    ctx.ev("outside_paths")
    if locales is not None and sample:
        other = next(x for x in LOCALES + ["xx", "yy"] if x not in locales)
        t, ls = paths.target(sample[0] if os.path.isabs(paths.ref_root) else relpath(sample[0], ref_root), locale=other)
        ctx.eq((t, set(ls)), (None, set()), "other-locale", locale=other)
    for x in ("no-such.ftl", join(tmp, "elsewhere.ftl"), "../x.ftl", "sub"):
        if normpath(join(ref_root, x)) not in want:
            t, ls = paths.target(x)
            ctx.eq((t, set(ls)), (None, set()), "not-a-reference", ref=x)
            t, ls = paths.target("no such/é.ftl", ref_required=False)
            ctx.eq(abspath(t), join(base, "{locale}", "no such/é.ftl"), "not-required", ref=x)
            ctx.ev("not_references")


def dirs_all(d):
    return [e.name for e in os.scandir(d) if e.is_dir(follow_symlinks=False)]


def fam_missing(ctx):
    """A directory that does not exist is refused."""
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c20-")
    try:
        x = join(tmp, rng.choice(["no", "no/such", "f"]))
        if x.endswith("f"):
            open(x, "w").close()
        ctx.case(x[len(tmp):])
        try:
            L10nDiscoverPaths(x)
            ctx.fail("missing-root", x)
        except ValueError:
            ctx.ev("refused")
        try:
            L10nDiscoverPaths(tmp)
            ctx.fail("empty-root", x)
        except MissingSourceDirectoryError:
            ctx.ev("refused")
    finally:
        shutil.rmtree(tmp)


FAMILIES = [
    Family("layouts", fam_layouts, 1600, 40000, need=["absolute", "outside", "inside", "ref_root", "no_reference", "reference_found", "reference_unique", "no_base", "locales", "ignored_and_forced", "references", "mapped", "there_and_back", "outside_paths", "not_references"]),
    Family("missing", fam_missing, 20, 100, need=["refused"]),
]
