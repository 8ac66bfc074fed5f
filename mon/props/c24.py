"""Comparison of localizations with their source: exactly what is missing, and totals that add up."""
from __future__ import annotations

import contextlib
import io
import json
import os
import shutil
import tempfile
from os.path import basename, join, relpath

from moz.l10n.bin.compare import cli as compare_cli

from .. import proj as P
from ..core import Family

RULE = "distinct by the contents of all files and the arguments; seeded random projects"
ASSUMPTIONS = ["messages are identified by the parts of their identifiers, joined by full stops", "every file is below its locale's directory", "no two localization directories have the same name"]

CODES = ["de", "fr", "pt-BR", "sr-Latn", "ja", "zh_TW"]
BAD = {"fluent": "a = {\n", "android": "<resources>", "xliff": "<xliff", "gettext": 'foo "a"\n', "ini": "x\n", "dtd": "<!ENTITY a>\n", "inc": "foo\n", "plain_json": "{", "webext": "{"}


def dotted(fmt, es):
    """The identifiers of the messages."""
    out = set()
    for e in es:
        if not e.obsolete:
            id = ".".join(e.sid + e.id)
            out |= {id + ".0", id + ".1"} if fmt == "android" and e.kind == "array" else {id}
    return out


def run(args):
    out, err = io.StringIO(), None
    with P.Log(), contextlib.redirect_stdout(out):
        try:
            compare_cli.main(args, standalone_mode=False)
        except (SystemExit, ValueError) as e:
            err = e
    return out.getvalue(), err


def fam_compare(ctx):
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c24-")
    cwd = os.getcwd()
    try:
        kind = rng.choice(["directory", "above", "config", "json"])
        root = join(tmp, "r")
        ref = rng.choice(["en", "en-US", "en_us"]) if kind == "above" else rng.choice(["en", "source", "src/ref"])
        base = root if kind == "above" or rng.random() < 0.5 else join(tmp, "l10n")
        text_mode = rng.random() < 0.4
        files = {}
        for _ in range(rng.choice([1, 2, 3, 5])):
            fmt = rng.choice(P.FORMATS)
            name = rng.choice(["", "", "browser/", "browser/x y/"]) + rng.choice(["a", "b", "main", "x.y"]) + P.EXT[fmt]
            if name not in files:
                es = [e for e in P.entries(rng, fmt) if not (text_mode and "\n" in e.id[0])]
                files[name] = (fmt, es)
        pots = {n for n, (f, _) in files.items() if f == "gettext" and kind != "json" and rng.random() < 0.3}
        locales = rng.sample(CODES, rng.choice([1, 2, 3]))
        # --ext
        exts = set()
        ext_arg = None
        if rng.random() < 0.3:
            exts = sorted({*rng.sample([".ftl", ".properties", ".xml", ".json", ".dtd", ".ini", ".po", ".y.ftl", ".y.json", ".y.ini"], rng.choice([1, 2, 3])), *rng.sample([os.path.splitext(n)[1] for n in files], 1)})
            how = rng.choice(["only", "only", "not", "both"])
            no = {x for x in exts if how == "not" or how == "both" and (rng.random() < 0.4 or x.startswith(".y"))}
            ext_arg = rng.choice(["", "", "'"])
            ext_arg += ",".join(rng.choice(["", " "]) + ("!" if x in no else "") + x[rng.choice([0, 1]):] for x in rng.sample(exts, len(exts))) + ext_arg
            keep = lambda n: (no == set(exts) or any(n.endswith(x) for x in exts if x not in no)) and not any(n.endswith(x) for x in no)  # noqa: E731
            if 0 < len(no) < len(exts):
                ctx.ev("ext_both")
        else:
            keep = lambda n: True  # noqa: E731
        sub = "{locale}/" if kind == "config" and rng.random() < 0.2 else ""  # the locale more than once in a path
        nm = lambda lc, n: sub.format(locale=lc) + n  # noqa: E731
        if sub:
            ctx.ev("locale_twice")
        if kind == "json":
            P.put(join(root, "source.json"), json.dumps({n: rng.sample(sorted(dotted(f, es)), len(dotted(f, es))) for n, (f, es) in files.items()}))
            source = join(root, "source.json")
        else:
            for n, (f, es) in files.items():
                P.put(join(root, ref, n + "t" if n in pots else n), P.render(f, es, rng))
            if kind == "config":
                pre = rng.choice(["{l10n_base}/", ""])
                P.put(join(root, "l10n.toml"), f'basepath = "."\n[[paths]]\nreference = "{ref}/**"\nl10n = "{pre}{{locale}}/{sub}**"\n')
                # a .pot needs its own entry
                if pots:
                    P.put(join(root, "l10n.toml"), f'basepath = "."\n[[paths]]\nreference = "{ref}/**"\nl10n = "{pre}{{locale}}/{sub}**"\n[[paths]]\nreference = "{ref}/**.pot"\nl10n = "{pre}{{locale}}/{sub}**.po"\n')
                source = join(root, "l10n.toml")
            else:
                source = root if kind == "above" else join(root, ref)
            if rng.random() < 0.3:
                P.put(join(root, ref, "README.md"), "not localized")
        # the localizations
        state = {}
        for lc in locales:
            os.makedirs(join(base, lc), exist_ok=True)
            for n, (f, es) in files.items():
                k = rng.random()
                p = join(base, lc, nm(lc, n))
                if k < 0.2:
                    state[lc, n] = "none"
                elif k < 0.3 and f in BAD:
                    P.put(p, BAD[f])
                    state[lc, n] = "bad"
                elif k < 0.33:
                    os.makedirs(p)
                    state[lc, n] = "bad"
                else:
                    loc = es if rng.random() < 0.3 else P.localize(rng, f, es, lc)
                    P.put(p, P.render(f, loc, rng, lc))
                    state[lc, n] = dotted(f, loc)
            if rng.random() < 0.4:
                P.put(join(base, lc, "extra.ftl"), "x = y\n")
        want = {}
        for lc in locales:
            errors, missing = set(), {}
            for n, (f, es) in files.items():
                ids = dotted(f, es)
                if not keep(n) or not ids:
                    continue
                s = state[lc, n]
                if s == "bad":
                    errors.add(nm(lc, n))
                    ctx.ev("unreadable")
                elif s == "none":
                    missing[nm(lc, n)] = ids
                    ctx.ev("no_file")
                elif ids - s:
                    missing[nm(lc, n)] = ids - s
                    ctx.ev("missing", len(ids - s))
                else:
                    ctx.ev("complete")
            want[lc] = (errors, missing)
        total = sum(len(dotted(f, es)) for n, (f, es) in files.items() if keep(n))
        # run it
        before = P.snapshot(tmp)
        k = rng.choice(["absolute", "relative", "inside"])
        args = [join(base, lc) for lc in locales]
        if k == "relative":
            os.chdir(tmp)
            args = [relpath(a) for a in args]
            source = relpath(source)
        elif k == "inside":
            os.chdir(args[0])
            args = [rng.choice([".", "./", "../" + basename(a)]) if i == 0 else "../" + basename(a) for i, a in enumerate(args)]
        args = [a + rng.choice(["", "", "/"]) for a in args]
        nodir = rng.random() < 0.15
        if nodir:
            args.append(join(base, "xx"))
        verbose = rng.choice([0, 1, 2])
        opts = ["--source", source] + (["--ext", ext_arg] if ext_arg else []) + (["-" + "v" * verbose] if verbose else []) + ([] if text_mode else ["--json"])
        ctx.case(repr((files, state, opts, args, kind))[:20000])
        ctx.ev(kind)
        ctx.ev(k)
        out, err = run([*args, *opts])
        ctx.eq(P.changed(before, P.snapshot(tmp)), [], "file-changed")
        ctx.ev("unchanged", len(before))
        if total == 0:
            ctx.check(isinstance(err, ValueError), "empty-source", out)
            ctx.ev("empty_source")
            return
        ctx.check(err is None, "error", repr(err))
        if text_mode:
            lines = [f"source: {total}"]
            got = out.splitlines()
            ctx.eq(got[:1], lines, "source-total")
            i = 1
            for lc in locales:
                errors, missing = want[lc]
                ctx.eq(got[i:i + 1], [f"{lc}: {-sum(map(len, missing.values()))}"], "locale-total", out=out)
                i += 1
                errs = set()
                while i < len(got) and got[i].lstrip().startswith("!!!"):
                    errs.add(next((n for n in [nm(lc, n) for n in files] if got[i].startswith("  !!! " + n + ":")), got[i]))
                    i += 1
                    while i < len(got) and not re_line(got[i], [nm(c, n) for n in files for c in locales], locales):  # the rest of a long error
                        i += 1
                ctx.eq(errs, errors, "errors", out=out)
                if not verbose:
                    continue
                seen = {}
                while i < len(got) and got[i].startswith("  "):
                    n = next((n for n in missing if got[i] == f"  {n}: {-len(missing[n])}"), None)
                    if n is None:
                        ctx.fail("file-total", got[i], out=out, want=missing)
                        return
                    i += 1
                    seen[n] = []
                    while verbose > 1 and i < len(got) and got[i].startswith("    "):
                        seen[n].append(got[i][4:])
                        i += 1
                if verbose > 1:
                    ctx.eq({n: sorted(v) for n, v in seen.items()}, {n: sorted(v) for n, v in missing.items()}, "missing-listed", out=out)
                else:
                    ctx.eq(set(seen), set(missing), "missing-listed", out=out)
            ctx.eq(got[i:], [], "extra-output", out=out)
            ctx.ev("text")
        else:
            res = json.loads(out)
            ctx.eq({lc: {n: sorted(v) for n, v in (r["missing"] or {}).items()} for lc, r in res.items()}, {lc: {n: sorted(v) for n, v in m.items()} for lc, (_, m) in want.items()}, "missing", kind_=kind)
            ctx.eq({lc: set(r["errors"] or ()) for lc, r in res.items()}, {lc: e for lc, (e, _) in want.items()}, "errors", full=res)
            ctx.ev("json_output")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def re_line(s, files, locales):
    return any(s.startswith(lc + ": ") for lc in locales) or any(s.startswith(f"  {n}: ") or s.startswith(f"  !!! {n}: ") for n in files)


FAMILIES = [
    Family("compare", fam_compare, 4000, 50000, need=["directory", "above", "config", "json", "absolute", "relative", "inside", "text", "json_output", "missing", "no_file", "unreadable", "complete", "unchanged", "empty_source", "ext_both", "locale_twice"]),
]
