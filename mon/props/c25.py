"""The fix command: normalised files, nothing else touched, nothing damaged."""
from __future__ import annotations

import os
import shutil
import tempfile
from os.path import join, relpath

from moz.l10n.formats import UnsupportedFormat
from moz.l10n.model import Entry
from moz.l10n.resource import parse_resource
from moz.l10n.bin.fix import cli as fix_cli, fix

from .. import fixlint as L
from .. import proj as P
from ..core import Family
from ..model import canon, diff

RULE = "distinct by the tree and the arguments; seeded random trees"
ASSUMPTIONS = ["the files are fixed by one process at a time", "a selected file of an unknown format is skipped, and counts as handled", "the directory holds localizable files"]


def words(comment):
    return " ".join(comment.split())


def unordered(c):
    """The same, with the attributes and options of Fluent in order of their names."""
    if isinstance(c, tuple):
        c = tuple(map(unordered, c))
        if c[:1] == ("dict",) and all(isinstance(x[0], str) for x in c[1:]):
            return ("dict", *sorted(c[1:], key=repr))
    return c


def view(res):
    """The contents without what the normal form does not keep: the order of header fields, Fluent attributes and options, unused namespaces, white space of comments."""
    return (
        res.format.name,
        words(res.comment),
        canon(sorted((m for m in res.meta if not m.key.startswith("xmlns:")), key=lambda m: m.key)),
        tuple((s.id, words(s.comment), canon(s.meta), tuple(
            (e.id, unordered(canon(e.value)), unordered(canon(e.properties)), words(e.comment), tuple(sorted((m.key, m.value) for m in e.meta))) if isinstance(e, Entry) else words(e.comment)
            for e in s.entries)) for s in res.sections),
    )


def call(rng, paths, config, cont):
    with P.Log() as log:
        if rng.random() < 0.5:
            return fix(paths, config, cont), log
        args = [*paths] + (["--config", config] if config else []) + (["--continue"] if cont else []) + rng.choice([[], ["-v"], ["-q"]])
        try:
            fix_cli.main(args, standalone_mode=False)
        except SystemExit as e:
            return e.code, log


def expected(path, data, kind):
    """(result, new contents)"""
    if kind in ("broken", "unwritable"):
        return "FAIL", data
    if kind in ("unknown", "foreign"):
        return "Skip", data
    try:
        new = L.normal(path, data)
    except UnsupportedFormat:
        return "Skip", data
    except Exception:
        return "FAIL", data
    return ("OK", data) if new == data else ("Fixed", new)


def fam_fix(ctx):
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp-c25-")
    cwd = os.getcwd()
    try:
        t, ordered, sel, paths, config, how = L.selection(rng, tmp)
        cont = rng.random() < 0.6
        if rng.random() < 0.4:
            os.chdir(rng.choice([tmp, join(tmp, "r")]))
            paths = [relpath(p) for p in paths]
            config = config and relpath(config)
        ctx.case(repr((sorted((p[len(tmp):], v) for p, v in t.items()), [p.replace(tmp, "") for p in paths], config, cont))[:50000])
        ctx.ev(how)
        exp = {p: expected(p, *t[p]) for p in sel}
        for p in sel:
            ctx.check(t[p][1] != "normal" or exp[p][0] == "OK", "normal-form-unstable", f"{p} {exp[p][0]}", before=t[p][0], after=exp[p][1])
        before = P.snapshot(tmp)
        rc, log = call(rng, paths, config, cont)
        after = P.snapshot(tmp)
        delta = set(P.changed(before, after))
        ctx.check(delta <= sel, "unselected-changed", f"{delta - sel}")
        ctx.check(set(before) == set(after), "files-added-or-removed", f"{set(before) ^ set(after)}")
        failing = {p for p in sel if exp[p][0] == "FAIL"}
        ctx.eq(rc, 1 if failing else 0, "exit-status", failing=failing, log=log.lines)
        if not cont and failing:
            if ordered:
                i = next(i for i, p in enumerate(ordered) if p in failing)
                done = set(ordered[:i])
                ctx.ev("stopped_in_order")
            else:
                done = None
        else:
            done = sel
        for p in sel:
            kind, new = exp[p]
            got, old = after[p][0], before[p][0]
            ctx.ev(kind)
            if kind != "Fixed" or (done is not None and p not in done):
                ctx.check(before[p] == after[p], "touched", f"{kind} {p}", log=log.lines, before=old, after=got)
            elif done is None and got == old:
                ctx.check(before[p] == after[p], "touched", p)
            else:
                ctx.check(got == new, "not-normalised", p, before=old, after=got, want=new)
                a, b = parse_resource(p, old), parse_resource(p, got)
                if t[p][1] == "valid":
                    d = diff(view(a), view(b))
                    ctx.ev("contents_compared")
                else:
                    ids = [[(s.id, e.id) for s in r.sections for e in s.entries if isinstance(e, Entry)] for r in (a, b)]
                    d = diff(*map(canon, ids))
                    ctx.ev("identifiers_compared")
                ctx.check(d is None, "contents", str(d), before=old, after=got)
        # the log names what was done
        for level, line in log.lines:
            if line.startswith("FAIL: "):
                ctx.check(any(line.split("\n")[0].endswith(relpath(p, x)) for p in failing for x in (tmp, join(tmp, "r"), os.getcwd())), "fail-named", line)
        if done is sel:
            n = sum(1 for p in sel if exp[p][0] == "Fixed")
            m = len(sel) - sum(1 for p in sel if exp[p][0] == "Skip")
            if rc == 0 and ordered is not None and m and len(set(ordered)) == len(ordered):
                ctx.check(any(line.startswith(f"Fixed {n}/{m} file") for _, line in log.lines), "count", f"{n}/{m}", log=log.lines)
                ctx.ev("counted")
        # again
        rc2, _ = call(rng, paths, config, cont)
        again = P.snapshot(tmp)
        if done is not None:
            ctx.eq(P.changed(after, again), [], "second-run-changed")
        ctx.eq(rc2, rc, "second-run-status")
        ctx.ev("second_runs")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def fam_arguments(ctx):
    """Neither paths nor a configuration, or both, is an error."""
    tmp = tempfile.mkdtemp(prefix="vp-c25-")
    try:
        P.put(join(tmp, "a.ftl"), "a   = b")
        P.put(join(tmp, "l10n.toml"), 'basepath = "."\n[[paths]]\nreference = "**/*.ftl"\nl10n = "x/{locale}/**/*.ftl"\n')
        before = P.snapshot(tmp)
        both = ctx.index % 2
        ctx.case(both)
        rc, _ = call(ctx.rng, [join(tmp, "a.ftl")] if both else [], join(tmp, "l10n.toml") if both else None, True)
        ctx.eq(rc, 2, "argument-error")
        ctx.eq(P.changed(before, P.snapshot(tmp)), [], "argument-error-changed")
        ctx.ev("argument_errors")
    finally:
        shutil.rmtree(tmp)


FAMILIES = [
    Family("fix", fam_fix, 2500, 60000, need=["files", "glob", "directory", "en", "config", "stopped_in_order", "counted", "contents_compared", "identifiers_compared", "second_runs", "OK", "Fixed", "Skip", "FAIL"]),
    Family("arguments", fam_arguments, 20, 40, need=["argument_errors"]),
]
