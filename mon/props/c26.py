"""The lint command: nothing is written, and each file that cannot be read is named."""
from __future__ import annotations

import logging
import os
import re
import shutil
import subprocess
import sys
import tempfile
from os.path import abspath, join, relpath, splitext

from moz.l10n.bin.lint import cli as lint_cli, lint

from .. import fixlint as L
from .. import proj as P
from ..core import Family

RULE = "distinct by the tree and the arguments; seeded random trees"
ASSUMPTIONS = ["the directory holds localizable files"]

EXTS = {x for v in P.EXT.values() for x in [v]} | {".pot", ".xlf"}


def fam_lint(ctx):
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c26-")
    cwd = os.getcwd()
    try:
        t, ordered, sel, paths, config, how = L.selection(rng, tmp)
        if rng.random() < 0.5:
            # fewer that fail, so that many selections are good
            for p, (data, kind) in t.items():
                if kind in ("broken", "foreign", "unknown") and rng.random() < 0.8 and not p.endswith("l10n.toml"):
                    ext = splitext(p)[1]
                    good = next((f for f in P.FORMATS if P.EXT[f] == ext), None)
                    if good:
                        t[p] = (P.render(good, P.entries(rng, good), rng).encode(), "valid")
                        P.put(p, t[p][0])
        skip = rng.random() < 0.4
        if rng.random() < 0.4:
            os.chdir(rng.choice([tmp, join(tmp, "r")]))
            paths = [relpath(p) for p in paths]
            config = config and relpath(config)
        ctx.case(repr((sorted((p[len(tmp):], v) for p, v in t.items()), [p.replace(tmp, "") for p in paths], config, skip))[:50000])
        ctx.ev(how)
        bad = {p for p in sel if t[p][1] in ("broken", "foreign", "unknown") and not (skip and splitext(p)[1] not in EXTS)}
        before = P.snapshot(tmp)
        with P.Log() as log:
            if rng.random() < 0.5:
                rc = lint(paths, config_path=config, skip_unknown=skip)
            else:
                args = [*paths] + (["--config", config] if config else []) + (["-u"] if skip else []) + rng.choice([[], ["-v"], ["-q"]])
                try:
                    rc = lint_cli.main(args, standalone_mode=False)
                except SystemExit as e:
                    rc = e.code
        ctx.eq(P.changed(before, P.snapshot(tmp)), [], "changed")
        ctx.ev("unchanged", len(before))
        ctx.eq(rc, 1 if bad else 0, "exit-status", bad=bad, log=log.lines)
        ctx.ev("fail" if bad else "pass")
        roots = [abspath(config and os.path.dirname(config) or (paths[0] if how in ("directory", "en") else os.getcwd()))]
        named = set()
        good = set()
        for level, line in log.lines:
            m = re.match(r"(FAIL|unsupported|ok|skip) (.*)", line, re.S)
            if not m:
                continue
            for p in sorted(sel, key=len, reverse=True):
                forms = {relpath(p, roots[0]), p, relpath(p)}
                if any(m[2] == f or m[1] == "FAIL" and m[2].startswith(f + " - ") for f in forms):
                    (named if m[1] in ("FAIL", "unsupported") else good).add(p)
                    if m[1] in ("FAIL", "unsupported"):
                        ctx.check(getattr(logging, level) >= logging.WARNING, "named-quietly", line)
                    break
            else:
                ctx.fail("unknown-file", line, sel=sel)
        ctx.eq(named, bad, "named", log=log.lines)
        ctx.ev("named", len(named))
        ctx.check(not (good & bad), "said-good", f"{good & bad}")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def fam_process(ctx):
    """The installed command, as another process."""
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c26-")
    try:
        t, ordered, sel, paths, config, how = L.selection(rng, tmp)
        cmd = rng.choice(["lint", "fix"])
        if how != "files":
            how = "files"
            paths, config, sel = sorted(t), None, set(t)
        bad = {p for p in sel if t[p][1] in (("broken", "foreign", "unknown") if cmd == "lint" else ("broken", "unwritable", "generated-unwritable"))}
        ctx.case(repr((cmd, sorted((p[len(tmp):], v) for p, v in t.items()), [p.replace(tmp, "") for p in paths]))[:50000])
        before = P.snapshot(tmp)
        import moz.l10n

        env = {**os.environ, "PYTHONPATH": os.pathsep.join([join(list(moz.l10n.__path__)[0], "..", "..")]), "PYTHONDONTWRITEBYTECODE": "1"}
        r = subprocess.run([sys.executable, "-m", "moz.l10n.bin." + cmd, *paths] + (["--continue"] if cmd == "fix" else []), cwd=tmp, env=env, capture_output=True, text=True, timeout=60)
        odd = any(t[p][1] == "odd" for p in sel)
        if cmd == "lint":
            ctx.eq(P.changed(before, P.snapshot(tmp)), [], "changed")
        ctx.check("Traceback" not in r.stderr, "traceback", r.stderr)
        if not (cmd == "fix" and odd):
            ctx.eq(r.returncode, 1 if bad else 0, "process-status", bad=bad, stderr=r.stderr)
        for p in bad:
            ctx.check(relpath(p, tmp) in r.stderr + r.stdout, "process-named", p, stderr=r.stderr)
        ctx.ev(cmd + "_process")
    finally:
        shutil.rmtree(tmp)


FAMILIES = [
    Family("lint", fam_lint, 3000, 80000, need=["files", "glob", "directory", "en", "config", "pass", "fail", "named", "unchanged"]),
    Family("process", fam_process, 24, 300, need=["lint_process", "fix_process"]),
]
