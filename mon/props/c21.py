"""Walking files: git says which of them are ignored."""
from __future__ import annotations

import os
import re
import shutil
import subprocess
import tempfile

from moz.l10n.util.walk_files import walk_files

from ..core import Family, Skip

RULE = "distinct by file tree and ignore rules; seeded random trees and rules"
ASSUMPTIONS = ["git check-ignore is right about git's rules, given the rule .* before those of the file",
               "limited to the directories given, these are not themselves ignored and do not overlap",
               "patterns hold literals, *, ?, a leading or trailing or inner /, ! and #; the rest of git's syntax is left to the gitignorant package and is covered by known findings"]

NAMES = ["a", "b", "c.ftl", "d.po", "build", "foo", "bar.txt", "foo.bar", "x.ftl", "éé", "a b", "a+b", "(x)", "en-US", "src", "test", "ab", "a.b.c", "$v", "^", "A", "foo~", "#x", "!y", "{l}", "x|y"]
HIDDEN = [".git", ".hidden", ".l10n-ignore", ".x.ftl", "."]
GIT = None


def setup():
    global GIT
    if GIT is None:
        GIT = tempfile.mkdtemp(prefix="vp-c21-git-")
        import atexit

        atexit.register(shutil.rmtree, GIT, True)
        env = {"PATH": os.environ.get("PATH", ""), "HOME": GIT, "GIT_CONFIG_NOSYSTEM": "1"}
        subprocess.run(["git", "init", "-q", "--bare", GIT + "/g"], check=True, env=env, stdout=subprocess.DEVNULL)


def git_ignored(root, paths, rules):
    """The paths that git ignores, given the rules for the whole tree."""
    setup()
    with open(GIT + "/g/info/exclude", "wb") as f:
        f.write(rules)
    env = {"PATH": os.environ.get("PATH", ""), "HOME": GIT, "GIT_CONFIG_NOSYSTEM": "1", "GIT_DIR": GIT + "/g", "GIT_WORK_TREE": root}
    p = subprocess.run(["git", "-c", "core.excludesFile=/dev/null", "-c", "core.bare=false", "-c", "core.quotePath=false", "-c", "core.ignoreCase=false", "check-ignore", "--no-index", "-z", "--stdin"],
                       input=b"\0".join(os.fsencode(p) for p in paths) + b"\0" if paths else b"", capture_output=True, cwd=root, env=env)
    if p.returncode not in (0, 1):
        raise RuntimeError(p.stderr.decode(errors="replace"))
    return {os.fsdecode(x) for x in p.stdout.split(b"\0") if x}


def tree(rng, depth=0):
    t = {}
    for _ in range(rng.choice([1, 2, 3, 5]) + (2 if depth == 0 else 0)):
        n = rng.choice(HIDDEN[:-1]) if rng.random() < 0.1 else rng.choice(NAMES)
        if n in (".git", ".l10n-ignore") and n in t:
            continue
        t[n] = tree(rng, depth + 1) if depth < 3 and rng.random() < 0.45 else rng.choice(["", "x", "link", "dirlink"]) if rng.random() < 0.2 else ""
    return t


def build(root, t, prefix=""):
    """Create the files; returns the paths of files and of directories."""
    files, dirs = [], []
    for n, v in t.items():
        p = os.path.join(root, prefix, n)
        rel = prefix + n
        if isinstance(v, dict):
            os.mkdir(p)
            dirs.append(rel)
            f, d = build(root, v, rel + "/")
            files += f
            dirs += d
        elif v == "dirlink":
            os.symlink(root, p)
        elif v == "link":
            os.symlink("/dev/null", p)
            files.append(rel)
        else:
            with open(p, "w") as fh:
                fh.write(v)
            files.append(rel)
    return files, dirs


def part(rng, seg):
    """A pattern for a path segment, or one near it."""
    c = rng.random()
    if c < 0.45:
        return seg
    if c < 0.6 and len(seg) > 1 and seg.isascii():  # git counts bytes
        i = rng.randrange(len(seg))
        return seg[:i] + "?" + seg[i + 1:]
    if c < 0.75:
        i = rng.randint(0, len(seg))
        return seg[:i] + "*"
    if c < 0.85:
        i = rng.randint(0, len(seg))
        return "*" + seg[i:]
    if c < 0.9:
        i = rng.randint(0, len(seg))
        return seg[:i] + "*" + seg[rng.randint(i, len(seg)):]
    if c < 0.95:
        return "*"
    return rng.choice(NAMES)


def pattern(rng, paths):
    path = rng.choice(paths)
    segs = path.split("/")
    c = rng.random()
    if c < 0.45:
        pat = part(rng, rng.choice(segs))
    elif c < 0.8:
        i = rng.randrange(len(segs))
        j = rng.randint(i + 1, len(segs)) if rng.random() < 0.5 else len(segs)
        pat = "/".join(part(rng, s) for s in segs[0 if rng.random() < 0.7 else i:j])
    elif c < 0.9:
        pat = "/".join(segs[: rng.randint(1, len(segs))]) + rng.choice(["/*", "/*.ftl", "/?", "/**"])
    else:
        pat = "*." + rng.choice(["ftl", "po", "txt", "*", "f*"])
    if rng.random() < 0.2:
        pat = "/" + pat
    if rng.random() < 0.25:
        pat += "/"
    return pat


def simple(pat):
    """Whether the pattern is in the part of the syntax decided here."""
    return pat.strip("/ ") != "" and "**" not in pat.removesuffix("/**") and "//" not in pat and not any(c in pat for c in "[]\\\t")


def rules(rng, paths):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
        c = rng.random()
        if c < 0.06:
            out.append(rng.choice(["", "   ", "# a comment", "#*", "# !a"]))
            continue
        p = pattern(rng, paths)
        if not simple(p):
            continue
        p = p.strip(" ")
        if p[0] in "#!":
            p = "/" + p
        if rng.random() < 0.3:
            p = "!" + p
        out.append(p + (rng.choice([" ", "   "]) if rng.random() < 0.05 else ""))
    return out


def walk(ctx, root, **kw):
    return [os.path.relpath(p, root) for p in walk_files(root, **kw)]


def expect(root, files, dirs, lines):
    text = ("\n".join([".*", *lines]) + "\n").encode()
    bad = git_ignored(root, files + dirs, text)
    return [f for f in files if f not in bad], bad


def fam_git(ctx):
    rng = ctx.rng
    base = tempfile.mkdtemp(prefix="vp-c21-")
    try:
        root = os.path.join(base, rng.choice(["root", "r.ftl", "sp ace", "a+b", "[x]", ".hid"]))
        os.mkdir(root)
        t = tree(rng)
        files, dirs = build(root, t)
        if not files:
            raise Skip()
        lines = rules(rng, files + dirs)
        where = rng.choice(["default", "default", "default", "named", "absolute", "none", "missing"])
        if isinstance(t.get(".l10n-ignore"), dict) and where == "default":
            raise Skip()
        text = rng.choice(["\n", "\n", "\r\n"]).join(lines) + rng.choice(["", "\n"])
        data = (b"\xef\xbb\xbf" if rng.random() < 0.05 else b"") + text.encode()
        kw = {}
        if where == "default":
            path = os.path.join(root, ".l10n-ignore")
            if t.get(".l10n-ignore") in ("link", "dirlink"):
                raise Skip()
        else:
            path = os.path.join(base, "ignore")
            kw = {"ignorepath": {"named": "../ignore", "absolute": path, "none": None, "missing": "no-such-file"}[where]}
        with open(path, "wb") as f:
            f.write(data)
        if where in ("none", "missing"):
            lines = []
        if where == "default" and ".l10n-ignore" not in files:
            files.append(".l10n-ignore")
        ctx.case((repr(t), text, where))
        ctx.ev("ignore_" + where)
        want, bad = expect(root, files, dirs, lines)
        before = snapshot(base)
        got = walk(ctx, root, **kw)
        ctx.eq(sorted(got), sorted(want), "walked", lines=lines, files=files)
        ctx.ev("files", len(files))
        ctx.ev("ignored", len(bad))
        if any(x.startswith("!") for x in lines):
            ctx.ev("negated")
        free = [d for d in dirs if d not in bad]
        if free:
            some = []
            for d in rng.sample(free, rng.randint(1, min(3, len(free)))):
                if not any(d == x or d.startswith(x + "/") or x.startswith(d + "/") for x in some):
                    some.append(d)
            got = walk(ctx, root, dirs=some, **kw)
            ctx.eq(sorted(got), sorted(f for f in want if any(f.startswith(d + "/") for d in some)), "walked-dirs", lines=lines, files=files, dirs=some)
            ctx.ev("dirs_limited")
        if rng.random() < 0.2:
            cwd = os.getcwd()
            os.chdir(base)
            try:
                r = os.path.basename(root)
                kw = {k: os.path.abspath(v) if v == "../ignore" else v for k, v in kw.items()} if where != "named" else kw
                got = [os.path.relpath(p, r) for p in walk_files(r, **kw)]
                ctx.eq(sorted(got), sorted(want), "walked-relative", lines=lines, files=files)
                ctx.ev("relative_root")
            finally:
                os.chdir(cwd)
        ctx.check(snapshot(base) == before, "tree-changed")
        try:
            list(walk_files(os.path.join(root, "no-such-dir")))
            ctx.fail("missing-root")
        except ValueError:
            pass
    finally:
        shutil.rmtree(base)


def snapshot(root):
    return sorted((d, sorted(ds), sorted((f, os.path.getsize(os.path.join(d, f))) for f in fs)) for d, ds, fs in os.walk(root))


KNOWN = {  # rules of git's syntax that the gitignorant package reads differently
    "class-negated": (["[!a].ftl"], ["a.ftl", "b.ftl"]),
    "class-brackets": (["x[]a]"], ["x]", "xa", "xb"]),
    "escapes": (["\\#x", "a\\*b"], ["#x", "a*b", "axb"]),
    "double-star": (["**/foo"], ["foo", "a/foo", "a/xfoo"]),
    "double-star-inner": (["a/**/b"], ["a/b", "a/x/b", "a/xb"]),
}


def fam_known(ctx):
    name = list(KNOWN)[ctx.index % len(KNOWN)]
    lines, files = KNOWN[name]
    ctx.case(name)
    root = tempfile.mkdtemp(prefix="vp-c21-")
    try:
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
            open(os.path.join(root, f), "w").close()
        with open(os.path.join(root, ".l10n-ignore"), "w") as f:
            f.write("\n".join(lines) + "\n")
        want, _ = expect(root, files, [], lines)
        try:
            got = sorted(walk(ctx, root))
        except re.error as e:
            got = repr(e)
        ctx.eq(got, sorted(want), "gitignore-" + name, lines=lines, files=files)
    finally:
        shutil.rmtree(root)


FAMILIES = [
    Family("git", fam_git, 1500, 40000, need=["files", "ignored", "negated", "dirs_limited", "relative_root", "ignore_default", "ignore_named", "ignore_absolute", "ignore_none", "ignore_missing"]),
    Family("known", fam_known, len(KNOWN), len(KNOWN)),
]
