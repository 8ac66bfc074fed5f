"""L10n TOML configs: what their patterns match, and where it goes."""
from __future__ import annotations

import os
import re
import shutil
import tempfile
from os.path import abspath, join, normpath, relpath

from moz.l10n.paths import L10nConfigPaths, get_android_locale, parse_android_locale

from ..core import Family, Skip

RULE = "distinct by configs, file tree and how the config is named; seeded random configs and trees"
ASSUMPTIONS = ["whether the locales of a config limit those of the configs it includes is not specified", "* matches within a file or directory name and ** any number of directories, neither matches names that start with a dot",
               "reference and l10n patterns have the same wildcards in the same order, and match a path in one way only",
               "a reference path with several rules goes, for one locale, by the last rule that lists the locale, or else by the last one for all locales",
               "relative target paths are relative to the base of the config, relative reference paths to its reference root"]

LOCALES = ["de", "fr", "he", "id", "en-GB", "pt-BR", "sr-Latn", "zh-Hant-HK", "yi", "ca-valencia", "fil"]
DIRS = ["app", "b", "c++", "core (x)", "d.e", "mod-1", "m_2", "été", "x y", "[z]", "a^b", "p|q", "t$"]
STEMS = ["one", "two", "a.b", "strings", "Localizable", "x-y", "q+", "é", "(1)", "m"]
EXTS = [".ftl", ".po", ".pot", ".properties", ".xml", ".txt", ".json", ""]


def glob_match(pat, path):
    """All ways in which a pattern matches a path, as what its wildcards stand for."""
    return list(_match(pat.split("/"), path.split("/")))


def _match(ps, fs):
    if not ps:
        if not fs:
            yield ()
        return
    p, rest = ps[0], ps[1:]
    if p == "**":
        for n in range(len(fs) + 1):
            if any(f.startswith(".") for f in fs[:n]):
                break
            if not rest:
                if n == len(fs) and n:
                    yield ("/".join(fs),)
            elif rest[0].startswith("*") and rest[0] != "**":
                # one wildcard: any directories and the start of the name
                if n < len(fs) and not fs[n].startswith(".") and fs[n].endswith(rest[0][1:]):
                    own = fs[n][: len(fs[n]) - len(rest[0]) + 1]
                    for more in _match(rest[1:], fs[n + 1:]):
                        yield ("/".join([*fs[:n], own]), *more)
            else:
                for more in _match(rest, fs[n:]):
                    yield ("".join(f + "/" for f in fs[:n]), *more)
        return
    if not fs:
        return
    f = fs[0]
    if "*" in p:
        a, b = p.split("*")
        if f.startswith(a) and f.endswith(b) and len(f) >= len(a) + len(b) and (a or not f.startswith(".")):
            for more in _match(rest, fs[1:]):
                yield (f[len(a): len(f) - len(b)], *more)
    elif p == f:
        yield from _match(rest, fs[1:])


def fill(pat, values):
    """A pattern with its wildcards replaced."""
    values = list(values)
    out = []
    segs = pat.split("/")
    i = 0
    while i < len(segs):
        s = segs[i]
        if s == "**":
            nxt = segs[i + 1] if i + 1 < len(segs) else None
            if nxt is None:
                out.append(values.pop(0))
            elif nxt.startswith("*"):
                out.append(values.pop(0) + nxt[1:])
                i += 1
            else:
                v = values.pop(0)
                out += v.split("/")[:-1]
        elif "*" in s:
            out.append(s.replace("*", values.pop(0)))
        else:
            out.append(s)
        i += 1
    return "/".join(out)


class Rule:
    def __init__(self, ref, l10n, locales):
        self.ref, self.l10n, self.locales = ref, l10n, locales


def name(rng, ext=None):
    return rng.choice(STEMS) + (rng.choice(EXTS) if ext is None else ext)


def rule(rng, n):
    """A rule whose targets are unlike those of other rules."""
    src = rng.choice(["en", "en-US", "templates", "locale/en", "src/en-US"])
    d = "/".join(rng.choice(DIRS) for _ in range(rng.choice([0, 1, 1, 2])))
    d = d + "/" if d else ""
    ext = rng.choice([e for e in EXTS if e])
    text = ".po" if ext == ".pot" and rng.random() < 0.8 else ext
    k = rng.random()
    tail = f"r{n}"
    if k < 0.2:
        f = name(rng, ext)
        ref, tgt = f"{d}{src}/{tail}/{f}", f"{d}LOC/{tail}/{f[:-len(ext)]}{text}"
    elif k < 0.35:
        ref, tgt = f"{d}{src}/{tail}/*{ext}", f"{d}LOC/{tail}/*{text}"
    elif k < 0.45:
        ref, tgt = f"{d}{src}/{tail}/pre-*{ext}", f"LOC/{d}{tail}/x-*{text}"
    elif k < 0.6:
        ref, tgt = f"{d}{src}/{tail}/**", f"{d}LOC/{tail}/**"
    elif k < 0.72:
        ref, tgt = f"{d}{src}/{tail}/**/*{ext}", f"LOC/{tail}/{d}**/*{text}"
    elif k < 0.8:
        f = name(rng, ext)
        ref, tgt = f"{d}{src}/{tail}/**/{f}", f"{d}LOC/{tail}/**/{f[:-len(ext)]}{text}"
    elif k < 0.9:
        ref, tgt = f"{tail}/*/{src}/**", f"{tail}/*/LOC/**"
    else:
        f = name(rng, ".xml")
        ref, tgt = f"{tail}/*/res/values/{f}", f"{tail}/*/res/values-ALOC/{f}"
    if rng.random() < 0.1:
        tgt = tgt + ".LOC" if not tgt.endswith("*") else tgt
        if "ALOC" in tgt:
            tgt = tgt.replace(".LOC", "")
    return ref, tgt


def some_file(rng, pat):
    """A path that the pattern may match."""
    out = []
    for s in pat.split("/"):
        if s == "**":
            out += [rng.choice(["d", "e.f", "g h", "k+", ".h"] if rng.random() < 0.2 else ["d", "e.f", "g h", "k+"]) for _ in range(rng.choice([0, 0, 1, 2]))]
        elif "*" in s:
            out.append(s.replace("*", rng.choice([*STEMS, ".x"] if rng.random() < 0.1 else STEMS)))
        else:
            out.append(s)
    if pat.endswith("**"):
        out.append(name(rng))
    path = "/".join(out)
    if rng.random() < 0.15:  # a near miss
        i = rng.randrange(len(path))
        path = path.replace(".", "X", 1) if rng.random() < 0.4 and "." in path else path[:i] + "n" + path[i + 1:] if path[i] != "/" else path
    return path


def dump(v):
    import json

    return json.dumps(v, ensure_ascii=False)


class Config:
    """One config file, with the rules it holds and the configs it includes."""

    def __init__(self, rng, root, where, counter, depth=0):
        self.path = where
        d = os.path.dirname(where)
        up = len(d.split("/")) if d else 0
        self.base = d
        basepath = None
        if rng.random() < 0.6:
            n = rng.randint(0, up)
            basepath = "/".join([".."] * n) or "."
            if rng.random() < 0.15:
                basepath += "/sub"
            self.base = normpath(join(d, basepath)).replace("\\", "/")
        if self.base == ".":
            self.base = ""
        self.locales = rng.sample(LOCALES, rng.randint(1, 5)) if rng.random() < (0.6 if depth == 0 else 0.25) else None
        env = {}
        self.env_l = rng.random() < 0.3
        if self.env_l:
            env["l"] = rng.choice(["{l10n_base}/{locale}/", "{locale}/"])
        self.rules = []
        self.uses_l10n_base = rng.random() < 0.3
        pool = self.locales or LOCALES
        for _ in range(rng.choice([1, 1, 2, 3] if depth else [0, 1, 2, 3, 4])):
            counter[0] += 1
            ref, tgt = rule(rng, counter[0])
            kind = rng.random()
            locs = rng.sample(pool, rng.randint(1, min(3, len(pool)))) if kind < 0.3 else None
            self.rules.append(Rule(ref, self.target(rng, tgt), locs))
            counter.append((self.base, ref, tgt))
            if kind > 0.85 or (locs and rng.random() < 0.3):
                # the same references again, for other locales elsewhere
                locs = rng.sample(pool, rng.randint(1, min(2, len(pool)))) if locs is None or rng.random() < 0.7 else None
                self.rules.append(Rule(ref, self.target(rng, f"alt{counter[0]}/" + tgt), locs))
            elif rng.random() < 0.05:
                self.rules.append(Rule(ref, self.rules[-1].l10n, rng.sample(pool, 1)))
        again = [x for x in counter[1:] if x[0] == self.base and all(x[1] != r.ref for r in self.rules)]
        if depth and again and rng.random() < 0.25:
            # the same paths as in another config
            _, ref, tgt = rng.choice(again)
            self.rules.append(Rule(ref, self.target(rng, tgt), rng.sample(pool, rng.randint(1, min(3, len(pool)))) if rng.random() < 0.7 else None))
        self.includes = []
        self.env = env
        toml = []
        if basepath is not None:
            toml.append(f"basepath = {dump(basepath)}")
        if self.locales is not None:
            toml.append(f"locales = {dump(self.locales)}")
        if depth < 2:
            for _ in range(rng.choice([0, 0, 1, 2])):
                counter[0] += 1
                sub = "/".join(filter(None, [rng.choice(["", "", "inc", "app/locales", "x y"]), f"c{counter[0]}.toml"]))
                self.includes.append(Config(rng, root, sub, counter, depth + 1))
        if self.includes and rng.random() < 0.2:
            env["dir"] = "inc"
        if env:
            toml.append("[env]")
            toml += [f"{k} = {dump(v)}" for k, v in env.items()]
        for r in self.rules:
            toml += ["[[paths]]", f"reference = {dump(r.ref)}", f"l10n = {dump(r.l10n)}"]
            if r.locales is not None:
                toml.append(f"locales = {dump(r.locales)}")
        incs = [i.path for i in self.includes]
        self.loop = False
        if depth and rng.random() < 0.15:
            incs.append("l10n.toml" if rng.random() < 0.5 else self.path)  # back to the first one, or this one
            self.loop = True
        for p in incs:
            p = relpath(p, self.base or ".")
            if env.get("dir") and p.startswith("inc/"):
                p = "{dir}" + p[3:]
            toml += ["[[includes]]", f"path = {dump(p)}"]
        self.toml = "\n".join(toml) + "\n"

    def target(self, rng, tgt):
        if self.env_l and tgt.startswith("LOC/"):
            return "{l}" + tgt[4:].replace("ALOC", "{android_locale}").replace("LOC", "{locale}")
        tgt = tgt.replace("ALOC", "{android_locale}").replace("LOC", "{locale}")
        if self.uses_l10n_base:
            return "{l10n_base}/" + tgt
        c = rng.random()
        return "./" + tgt if c < 0.05 else tgt.replace("/", "//", 1) if c < 0.08 else "../o/" + tgt if c < 0.11 else tgt

    def all(self):
        yield self
        for i in self.includes:
            yield from i.all()


def chain(top, cfg):
    """The configs from the first one to the given one."""
    if top is cfg:
        return [top]
    for i in top.includes:
        c = chain(i, cfg)
        if c:
            return [top, *c]
    return []


def expected(cfg, files, root, base=None):
    """For one config: reference path -> list of (target template, locales), in the order of rules."""
    own = join(root, cfg.base) if cfg.base else root
    out = {}
    for r in cfg.rules:
        tgt = r.l10n.replace("{l}", cfg.env.get("l", "{l}"))
        if tgt.startswith("{l10n_base}/"):
            tgt = tgt[12:]
        if "*" in r.ref:
            found = []
            for f in files:
                rel = relpath(join(root, f), own)
                if rel.startswith("../"):
                    continue
                ms = set(glob_match(r.ref, rel))
                if len(ms) > 1:
                    raise Skip()
                if ms:
                    found.append((normpath(join(own, rel)), fill(tgt, ms.pop())))
        else:
            found = [(normpath(join(own, r.ref)), tgt)]
        for ref, t in found:
            if t.endswith(".pot"):
                t = t[:-1]
            t = normpath(join(base or own, t))
            rules = out.setdefault(ref, [])
            same = [x for x in rules if x[0] == t]
            if same:
                if rules[-1] is not same[0]:
                    raise Skip()
                rules.remove(same[0])
            rules.append((t, r.locales))
    return out


def fam_configs(ctx):
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c19-")
    cwd = os.getcwd()
    try:
        root = join(tmp, rng.choice(["r", "re po", "c++", "a(b)", "v1.2", "[x]", "q?", "été", "^$|"]))
        os.mkdir(root)
        cfg = Config(rng, root, rng.choice(["l10n.toml", "l10n.toml", "l10n.toml", "cfg/l10n.toml"]), [0])
        configs = list(cfg.all())
        files = set()
        for c in configs:
            for r in c.rules:
                for _ in range(rng.choice([1, 2, 4])):
                    f = normpath(join(c.base, some_file(rng, r.ref)))
                    if not f.startswith(".."):
                        files.add(f)
        made = []
        for f in sorted(files):
            p = join(root, f)
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "x"):
                    pass
            except OSError:
                continue
            made.append(f)
        for c in configs:
            p = join(root, c.path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as fh:
                fh.write(c.toml)
        if any(c.loop for c in configs) and cfg.path != "l10n.toml":
            raise Skip()
        ctx.case((os.path.basename(root), repr(made), repr([(c.path, c.toml) for c in configs])))
        ctx.dbg = (made, [(c.path, c.toml) for c in configs])
        tree = made + [c.path for c in configs]
        # how the config is named
        how = rng.choice(["absolute", "absolute", "relative", "outside"])
        if how == "absolute":
            arg, top = join(root, cfg.path), root
        elif how == "relative":
            os.chdir(root)
            arg, top = cfg.path, "."
        else:
            os.chdir(tmp)
            arg, top = join(os.path.basename(root), cfg.path), os.path.basename(root)
        ctx.ev(how)
        forced = []
        if rng.random() < 0.3:
            for c in configs:
                for r in c.rules:
                    f = normpath(join(c.base, some_file(rng, r.ref)))
                    if "*" in r.ref and not f.startswith("..") and not re.search(r"(^|/)\.", f) and not os.path.lexists(join(root, f)):
                        forced.append(f)
            forced = sorted(set(forced))
        loaded = []
        kw = {"force_paths": [normpath(join(top, f)) for f in forced]} if forced else {}
        if rng.random() < 0.3:
            def load(p):
                import tomllib

                loaded.append(p)
                with open(p, "rb") as fh:
                    return tomllib.load(fh)
            kw["cfg_load"] = load
        if rng.random() < 0.2:
            kw["locale_map"] = {"android_locale": lambda lc: "b+" + lc.replace("-", "+")} if rng.random() < 0.5 else {"other": lambda lc: lc}
        paths = L10nConfigPaths(arg, **kw)
        if loaded:
            ctx.eq([abspath(p) for p in loaded], [abspath(join(top, c.path)) for c in configs], "configs-loaded")
            ctx.ev("configs_loaded", len(loaded))
        ctx.eq([abspath(p) for p in paths.config_paths()], [abspath(join(top, c.path)) for c in configs], "config-paths")
        new_base = None
        if rng.random() < 0.25:
            new_base = join(tmp, "target", "base+")
            paths.base = new_base
            ctx.eq(paths.base, new_base, "base")
            ctx.ev("base_set")
        else:
            ctx.eq(abspath(paths.base), abspath(join(top, cfg.base)), "base")
        ctx.eq(abspath(paths.ref_root), abspath(join(top, cfg.base)), "ref-root")
        if rng.random() < 0.2:
            locales = rng.sample(LOCALES, rng.randint(1, 6))
            paths.locales = locales
            for c in configs:
                c.locales = locales
            ctx.ev("locales_set")
        check(ctx, paths, cfg, configs, tree, forced, top, new_base, kw.get("locale_map", {}))
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def check(ctx, paths, cfg, configs, tree, forced, top, new_base, locale_map):
    rng = ctx.rng
    atop = abspath(top)
    per = [(c, expected(c, [*tree, *forced], atop, new_base)) for c in configs]
    android = locale_map.get("android_locale", get_android_locale)

    def concrete(t, locale):
        return t.replace("{android_locale}", android(locale)).replace("{locale}", locale)

    want_refs = {r for _, e in per for r in e}
    got_refs = [abspath(r) for r in paths.ref_paths]
    ctx.eq(sorted(set(got_refs)), sorted(want_refs), "reference-paths", forced=forced)
    ctx.ev("references", len(want_refs))
    if forced:
        ctx.ev("forced", len(forced))
    want_all, loose = {}, set()
    for c, e in per:
        for ref, rules in e.items():
            for t, locales in rules:
                key = (ref, t)
                ls = locales or c.locales
                if key in want_all:  # in more than one config: for the locales of each of them
                    if ls is None or want_all[key] is None:
                        loose.add(key)
                    else:
                        ls = sorted({*ls, *want_all[key]})
                        ctx.ev("locales_merged")
                want_all[key] = ls
    got_all = {(abspath(r), abspath(t)): ls for (r, t), ls in paths.all().items()}
    ctx.eq(sorted(got_all), sorted(want_all), "all-paths", forced=forced)
    for key, ls in want_all.items():
        if key not in loose:
            ctx.eq(None if got_all[key] is None else sorted(got_all[key]), None if ls is None else sorted(ls), "all-locales", path=key)
            ctx.ev("targets")
    ctx.eq(paths.all_locales, {x for c in configs for x in [*(c.locales or []), *(y for r, ls in dict(per_rules(c, per)).items() for y in ls)]}, "locales-of-config")

    # which concrete paths are targets of what
    targets = [(re.compile("".join("(?P<%s%d>[^/]+)" % (x[1:-1], i) if x in ("{locale}", "{android_locale}") else re.escape(x) for i, x in enumerate(re.split(r"(\{locale\}|\{android_locale\})", t)))), ref, t) for ref, t in want_all]

    def sources(path):
        out = set()
        for p, ref, t in targets:
            m = p.fullmatch(path)
            if m:
                vs = {}
                if all(vs.setdefault(k.rstrip("0123456789"), v) == v for k, v in m.groupdict().items()):
                    out.add((ref, tuple(sorted(vs.items()))))
        return out

    refs = sorted(want_refs)
    rng.shuffle(refs)
    for ref in refs[:8]:
        args = [next(r for r in paths.ref_paths if abspath(r) == ref), relpath(ref, abspath(paths.ref_root))]
        c, rules = next((c, e[ref]) for c, e in per if ref in e)
        twice = sum(ref in e for _, e in per) > 1
        if ref.endswith(".pot"):
            args.append(args[1][:-1]) if ref[:-1] not in want_refs else None
        for arg in args:
            t, ls = paths.target(arg)
            if twice:
                continue
            ok = []
            for tt, locales in rules:
                if locales is None:
                    ok.append((tt, set(c.locales or [])))
                elif c.locales is None:
                    ok.append((tt, set(locales)))
                elif set(locales) & set(c.locales):
                    ok.append((tt, set(locales) & set(c.locales)))
            free = [x for x, (_, locales) in zip(ok, rules) if locales is None] if all(l is None for _, l in rules) else []
            if not ok:
                ctx.eq((t, ls), (None, set()), "target-of-reference", ref=arg)
            else:
                choice = [ok[-1]] + [(tt, set(c.locales or [])) for tt, locales in rules if locales is None][-1:]
                ctx.check(t is not None and (abspath(t), set(ls)) in choice, "target-of-reference", f"{arg}: {t} {ls} not in {choice}")
                ctx.ev("mapped")
        pool = {*(cfg.locales or []), *(x for _, l in rules for x in l or [])} or set(LOCALES)
        for locale in [*rng.sample(sorted(pool), min(3, len(pool))), rng.choice(LOCALES)]:
            want = None
            if any(x.locales and locale not in x.locales for x in chain(cfg, c)[:-1]):
                continue  # whether a config's locales limit those of configs it includes is not specified
            if not c.locales or locale in c.locales:
                some = [tt for tt, l in rules if l and locale in l] or [tt for tt, l in rules if l is None]
                want = concrete(some[-1], locale) if some else None
            if twice:
                # some config has a target for the locale, or none does
                some = set()
                for d, e in per:
                    if ref in e and not any(x.locales and locale not in x.locales for x in chain(cfg, d)):
                        mine = [tt for tt, l in e[ref] if l and locale in l] or [tt for tt, l in e[ref] if l is None]
                        some.update(concrete(tt, locale) for tt in mine[-1:])
                t, ls = paths.target(args[0], locale=locale)
                t2 = paths.format_target_path(t, locale) if t is not None else None
                if some:
                    ctx.check(t2 is not None and abspath(t2) in some and set(ls) == {locale}, "target-in-some-config", f"{ref} {locale}: {t} {ls} not in {some}")
                    ctx.ev("target_in_some_config")
                elif not any(ref in e and any(x.locales for x in chain(cfg, d)) for d, e in per):
                    ctx.eq((t, set(ls)), (None, set()), "no-target-in-any-config", ref=ref, locale=locale)
                continue
            for arg in args:
                t, ls = paths.target(arg, locale=locale)
                t2 = paths.format_target_path(t, locale) if t is not None else None
                ctx.eq((t2 and abspath(t2), set(ls)), (want, {locale} if want else set()), "target-for-locale", ref=arg, locale=locale, dbg=ctx.dbg)
            if want is None:
                ctx.ev("no_target")
                continue
            # and back again
            src = sources(want)
            ctx.check(any(r == ref for r, _ in src), "harness", want)
            got = paths.find_reference(want)
            if len(src) == 1:
                vs = {k: v for k, v in dict(next(iter(src))[1]).items()}
                ctx.eq((got and abspath(got[0]), got and got[1]), (ref, vs), "target-to-reference", target=want, dbg=ctx.dbg)
                for k, v in vs.items():
                    lc = v if k == "locale" else parse_android_locale(v) if android is get_android_locale else None
                    if lc is not None:
                        ctx.eq(lc, locale, "locale-of-target", target=want, dbg=ctx.dbg)
                rel = relpath(want, abspath(paths.base))
                got = paths.find_reference(rel)
                ctx.eq(got and abspath(got[0]), ref, "relative-target-to-reference", target=rel)
                ctx.ev("there_and_back")
            elif got is not None:
                ctx.check(any(abspath(got[0]) == r and got[1] == dict(v) for r, v in src), "target-to-reference", f"{want} {got}")
            # near misses
            for _ in range(4):
                i = rng.randrange(len(want))
                k = rng.random()
                bad = want + rng.choice(["x", ".", "/x", "~"]) if k < 0.2 else want[:i] + want[i + 1:] if k < 0.4 else want[:i] + "Z" + want[i + 1:] if k < 0.6 else want.replace(".", "_", 1) if k < 0.7 else re.sub(r"\.(?=[a-z]+$)", "-", want) if k < 0.8 else "/x" + want if k < 0.9 else want.replace("++", "+", 1)
                bad = normpath(bad)
                if not bad.startswith(abspath(paths.base) + "/") and rng.random() < 0.5:
                    continue
                src2 = sources(bad)
                got = paths.find_reference(bad)
                if not src2:
                    empty = got is not None and "" in got[1].values()
                    ctx.check(got is None or empty, "outside-config", f"{bad} -> {got}")
                    ctx.ev("outside")
                elif got is not None:
                    ctx.check(any(abspath(got[0]) == r and got[1] == dict(v) for r, v in src2), "near-target", f"{bad} {got}")
    # paths that are no references
    for f in rng.sample(tree, min(4, len(tree))):
        ref = normpath(join(atop, f))
        for x in (ref, ref + "x", os.path.dirname(ref)):
            if x not in want_refs and x + "t" not in want_refs:
                ctx.eq(paths.target(x), (None, set()), "not-a-reference", ref=x)
                ctx.ev("not_references")


def per_rules(c, per):
    e = next(e for d, e in per if d is c)
    for ref, rules in e.items():
        for t, ls in rules:
            if ls is not None:
                yield (ref, t), ls


def fam_vars(ctx):
    """Other variables are filled in from where they are given, and stay otherwise."""
    rng = ctx.rng
    v = rng.choice(["x", "x/y", "a.b", "{locale}-x"])
    given = rng.random() < 0.5
    env = rng.random() < 0.5
    tmpl = rng.choice(["{foo}/{locale}/a.ftl", "{locale}/{foo}/a.ftl", "p-{foo}/{locale}.ftl", "{android_locale}/{foo}-a.ftl"])
    cfg = {"paths": [{"reference": "en/a.ftl", "l10n": tmpl}], **({"env": {"foo": v}} if env else {})}
    locale = rng.choice(LOCALES)
    ctx.case((tmpl, v, given, env))
    paths = L10nConfigPaths("/no such/l10n.toml", cfg_load=lambda p: cfg)
    fm = {"foo": "FM"} if given else None
    val = v if env else "FM" if given else "{foo}"
    want = normpath("/no such/" + tmpl.replace("{foo}", val))
    ctx.eq(paths.all(fm), {("/no such/en/a.ftl", want): None}, "variable-all", template=tmpl)
    ctx.eq(paths.target("en/a.ftl", format_map=fm), (want, set()), "variable-target", template=tmpl)
    if env or given:
        full = normpath(want.replace("{locale}", locale).replace("{android_locale}", get_android_locale(locale)))
        t, ls = paths.target("en/a.ftl", format_map=fm, locale=locale)
        ctx.eq((t and normpath(paths.format_target_path(t, locale)), ls), (full, {locale}), "variable-target", template=tmpl)
    ctx.ev("env" if env else "format_map" if given else "kept")


FAMILIES = [
    Family("configs", fam_configs, 1500, 40000, need=["absolute", "locales_merged", "target_in_some_config", "relative", "outside", "configs_loaded", "base_set", "locales_set", "references", "forced", "targets", "mapped", "no_target", "there_and_back", "outside", "not_references"]),
    Family("vars", fam_vars, 300, 3000, need=["env", "format_map", "kept"]),
]
