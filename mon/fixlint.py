"""Random trees of files that can and cannot be read, for the fix and lint commands."""
from __future__ import annotations

import os
from os.path import abspath, join, relpath

from moz.l10n.resource import parse_resource, serialize_resource

from . import files, proj as P

BROKEN = {".ftl": ["a = {\n", "a = b\nc\n", "a = { $x ->\n  *[one] x\n"], ".xliff": ['<xliff version="1.2"><file original="a"><body><trans-unit id="a"></body>', '<xliff version="1.2"><file original="a"><body><trans-unit id="a"><target>x</target></trans-unit></body></file><foo/></xliff>x'],
          ".xml": ['<resources><string name="a">x</resources>'], ".po": ['foo "a"\n', 'msgid "a"\nmsgfoo "b"\n'],
          ".dtd": ["<!ENTITY a b>\n", '<!ENTITY a "x"\n'], ".inc": ["#define a\nfoo\n", "x\n"], ".ini": ["x\n", "[a]\nb\n"]}
#: these can be read, but not written
UNWRITABLE = {".ini": ["[A[B]\nx = y\n", "[A]\na  =  b\n\n[B[]\nx=y\n"]}
UNKNOWN = {".txt": ["text\n", ""], ".png": [b"\x89PNG\x00"], ".html": ["<p>x"], ".md": ["# x\n"], "": ["x=y\n"]}
#: a known extension with contents that are not of its format
FOREIGN = {".json": ['{"a": "b"', '{"a": 1, "b": "c"}', '["a"]'], ".xml": ["<foo/>", "<?xml version='1.0'?>\n<a><b/></a>\n"]}


def make(rng):
    """(extension, contents, kind)"""
    k = rng.random()
    for p, kind, table in ((0.12, "broken", BROKEN), (0.16, "unwritable", UNWRITABLE), (0.24, "unknown", UNKNOWN), (0.26, "foreign", FOREIGN)):
        if k < p:
            ext = rng.choice(sorted(table))
            return ext, rng.choice(table[ext]), kind
    if rng.random() < 0.5:
        kind = "valid"
        fmt = rng.choice(P.FORMATS)
        ext = P.EXT[fmt]
        src = P.render(fmt, P.entries(rng, fmt), rng)
    else:
        fmt = rng.choice(files.FORMATS)
        ext = rng.choice(files.EXT[fmt])
        src = files.source(rng, fmt, True)
        kind = "odd"
    data = src.encode("utf-8")
    if rng.random() < 0.35:
        try:
            data = normal("x" + ext, data)
            kind = "normal"
        except Exception:
            kind = "generated-unwritable"
    return ext, data, kind


def normal(path, data):
    return "".join(serialize_resource(parse_resource(path, data))).encode("utf-8")


def tree(rng, root, dirs=("", "", "sub/", "sub/x y/"), pot=True):
    """path -> (contents, kind)"""
    out = {}
    for _ in range(rng.choice([1, 2, 4, 7])):
        ext, data, kind = make(rng)
        if ext == ".pot" and not pot:  # the directory of templates is the reference directory
            continue
        name = rng.choice(dirs) + rng.choice(["a", "b", "c", "main", "x.y", "é", "k"]) + ext
        path = join(root, name)
        if path not in out:
            data = data if isinstance(data, bytes) else data.encode()
            out[path] = (data, kind)
            P.put(path, data)
    return out


def selection(rng, tmp):
    """Files in tmp, and arguments that select some of them: (all files, [selected] or None if unordered, set of selected, paths, config, how)"""
    root = join(tmp, "r")
    how = rng.choice(["files", "files", "glob", "directory", "en", "config"])
    if how == "en":
        ref = join(root, rng.choice(["en-US", "en", "loc/en-US"]))
        sel = tree(rng, ref)
        P.put(join(ref, "have.ftl"), "x = y\n")
        sel[join(ref, "have.ftl")] = (b"x = y\n", "normal")
        rest = tree(rng, root, ("", "de/", "other/"), False)
        return sel | rest, None, set(sel), [root], None, how
    t = tree(rng, root)
    if how == "directory":
        P.put(join(root, "have.ftl"), "x = y\n")
        t[join(root, "have.ftl")] = (b"x = y\n", "normal")
        sel = set(t)
        if rng.random() < 0.3:
            ign = rng.choice(sorted(sel))
            if not ign.endswith("have.ftl"):
                P.put(join(root, ".l10n-ignore"), "/" + relpath(ign, root) + "\n")
                sel.discard(ign)
        return t, None, sel, [root], None, how
    if how == "config":
        sub = rng.choice(["", "sub/"])
        P.put(join(root, "l10n.toml"), f'basepath = "."\n[[paths]]\nreference = "{sub}**/*.*"\nl10n = "l10n/{{locale}}/{sub}**/*.*"\n')
        sel = {p for p in t if relpath(p, root).startswith(sub) and "." in os.path.basename(p)} | ({join(root, "l10n.toml")} if not sub else set())
        t[join(root, "l10n.toml")] = (P.read(join(root, "l10n.toml")), "unknown")
        return t, None, sel, [], join(root, "l10n.toml"), how
    if how == "files":
        ps = rng.sample(sorted(t), rng.randint(1, len(t)))
        return t, ps, set(ps), list(ps), None, how
    pats, sel = [], set()
    for _ in range(rng.choice([1, 2])):
        g = rng.choice(["**", "**/*.ftl", "*.*", "**/*.[a-z]*", "sub/**/*", "**/a.*", "*"])
        pats.append(join(root, g))
        import fnmatch
        for p in t:
            r = relpath(p, root)
            d, b = os.path.split(r)
            ok = {"**": True, "**/*.ftl": b.endswith(".ftl"), "*.*": not d and "." in b, "**/*.[a-z]*": fnmatch.fnmatchcase(b, "*.[a-z]*"), "sub/**/*": r.startswith("sub/"), "**/a.*": b.startswith("a."), "*": not d}[g]
            if ok:
                sel.add(p)
    return t, None, sel, pats, None, how
