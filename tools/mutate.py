"""Random single-point mutants of the code under test, to find what the checks miss.

    mutate.py OUT.jsonl N [SEED] [PATH-SUBSTRING]

For each mutant that the repository's own tests accept, the checks related to its file are run on a copy
until one reports a violation. A development tool: no check uses it.
"""
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

PY = "/opt/venv/bin/python"
# Checks that see changes to a format, most specific first
FORMATS = {"android": "C06 C22 C32 C30", "dtd": "C09", "fluent": "C02 C29", "gettext": "C08 C29", "inc": "C09", "ini": "C09", "mf2": "C03 C04 C30", "plain_json": "C10", "properties": "C01 C29", "webext": "C10", "xliff": "C07 C32 C30"}
GENERIC = "C11 C12 C35 C14 C34 C28 C05 C13 C33"
OTHER = {"paths/": "C19 C20 C22 C21", "bin/": "C23 C24 C25 C26 C27", "message/": "C05 C14 C15 C03 C35", "resource/": "C35 C16 C17 C18 C14 C12 C13 C27 C20", "model.py": "C17 C05 C15 C14 C28 C13", "migrate": "C27", "lint": "C26 C25", "util": "C21 C20 C25"}


CHECKS = [f"C{i:02}" for i in range(1, 36)]
SCALE = ["--jobs", "1", "--scale", "0.4"]


def checks(rel):
    out = []
    for f, cs in FORMATS.items():
        if f"/{f}/" in rel or rel.endswith(f"/{f}.py"):
            out += cs.split() + GENERIC.split()
    for k, cs in OTHER.items():
        if k in rel:
            out += cs.split()
    return list(dict.fromkeys(out or "C11 C14 C28 C16 C27 C25 C23 C13 C18 C19 C20".split()))


SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(src):
    """(line, what, new source)."""
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    enc = src.encode()
    for line in enc.split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def rep(node, what, new):
        a, b = span(node)
        out.append((node.lineno, what, (enc[:a] + new.encode() + enc[b:]).decode()))

    docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr)}
    skip = {id(x) for n in ast.walk(tree) if isinstance(n, (ast.Raise, ast.ImportFrom, ast.Import, ast.Assert)) for x in ast.walk(n)}
    skip |= {id(x) for n in ast.walk(tree) if isinstance(n, ast.keyword) and n.arg in ("metavar", "help") for x in ast.walk(n)}
    skip |= {id(x) for n in ast.walk(tree) if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "__all__" for x in ast.walk(n)}
    skip |= {id(x) for n in ast.walk(tree) if isinstance(n, ast.If) and "__name__" in ast.dump(n.test) for x in ast.walk(n)}
    skip |= {id(x) for n in ast.walk(tree) for k in ("annotation", "returns") if getattr(n, k, None) is not None for x in ast.walk(getattr(n, k))}
    skip |= {id(x) for n in ast.walk(tree) if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("cast", "add_argument", "ArgumentParser", "debug", "info", "print", "warning", "error", "TypeVar") for x in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in skip or id(n) in docs:
            continue
        seg = lambda x: enc[span(x)[0] : span(x)[1]].decode()
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, "compare", f"{seg(n.left)} {SWAP[type(n.ops[0])]} {seg(n.comparators[0])}")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "boolop", "(" + op.join(f"({seg(v)})" for v in n.values) + ")")
            for i in range(len(n.values)):
                keep = [v for j, v in enumerate(n.values) if j != i]
                rep(n, "operand", "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({seg(v)})" for v in keep) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "not", f"({seg(n.operand)})")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, "bool", str(not n.value))
            elif isinstance(n.value, int):
                rep(n, "int", str(n.value + 1))
                if n.value:
                    rep(n, "int", str(n.value - 1))
            elif isinstance(n.value, str) and n.value and seg(n)[:1] in "\"'r" and '"""' not in seg(n):
                s = seg(n)
                i = random.randrange(s.index(s[-1]) + 1, len(s) - 1) if len(s) - 1 > s.index(s[-1]) + 1 else None
                if i is not None:
                    rep(n, "str-del", s[:i] + s[i + 1 :])
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, "cond-not", f"(not ({seg(n.test)}))")
            if not isinstance(n, ast.While):
                rep(n.test, "cond-true", "True")
                rep(n.test, "cond-false", "False")
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, "filter", "True")
        elif isinstance(n, (ast.Continue,)):
            rep(n, "continue", "pass")
        elif isinstance(n, ast.Break):
            rep(n, "break", "pass")
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield, ast.YieldFrom)):
            if "log." not in seg(n):
                rep(n, "drop", "pass")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.col_offset > 0:
            rep(n, "drop", "pass")
        elif isinstance(n, ast.Raise):
            rep(n, "raise", "pass")
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n.value, "return", "None")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lstrip", "rstrip", "lower", "casefold", "upper", "copy", "clone", "sort") and isinstance(n.func.value, (ast.Name, ast.Call, ast.Attribute)):
            rep(n, "method", seg(n.func.value))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "dict", "deepcopy", "reversed", "replace") and n.args:
            rep(n, "wrapper", seg(n.args[0]))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            rep(n, "arith", f"{seg(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {seg(n.right)}")
            rep(n, "arith", seg(n.left))
    return out


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
    part = sys.argv[4] if len(sys.argv) > 4 else ""
    random.seed(seed)
    todo = []
    base = "/repo/python/moz/l10n/"
    for f in sorted(glob.glob(base + "**/*.py", recursive=True)):
        rel = f[len(base) :]
        if part and not re.search(part, rel):
            continue
        src = open(f).read()
        todo += [(rel, *m) for m in mutants(src) if m[2] != src]
    print(len(todo), "mutants")
    random.shuffle(todo)
    todo = todo[:n]
    lock, spots = Lock(), [f"/tmp/mut/w{i}" for i in range(8)]
    for s in spots:
        shutil.rmtree(s, ignore_errors=True)
        os.makedirs(s)
        shutil.copytree("/repo", s + "/repo", symlinks=True)
        shutil.copytree("/verif", s + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded"), symlinks=True)
        os.makedirs(s + "/verif/evidence/replays")
    counts = {}
    # checks that need all of their cases
    used = sorted({c for m in todo for c in checks(m[0])})
    with ThreadPoolExecutor(8) as pool:
        codes = pool.map(lambda c: subprocess.run(["/verif/run.sh", c, "quick", *SCALE], capture_output=True, env=dict(os.environ, VERIF_SEED="1")).returncode, used)
    by_scale = {c for c, rc in zip(used, codes) if rc}
    print("not conclusive at this scale:", *by_scale, flush=True)

    def one(m):
        rel, line, what, new = m
        with lock:
            spot = spots.pop()
        path = f"{spot}/repo/python/moz/l10n/{rel}"
        old = open(path).read()
        res, by = "survived", None
        try:
            try:
                compile(new, rel, "exec")
            except SyntaxError:
                res = "tests"
                return
            open(path, "w").write(new)
            env = dict(os.environ, PYTHONPATH=f"{spot}/repo/python", PYTHONDONTWRITEBYTECODE="1")
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=spot + "/repo/python", env=env, capture_output=True, timeout=60)
                if r.returncode:
                    res = "tests"
            except subprocess.TimeoutExpired:
                res = "tests"
            if res == "survived":
                env = dict(os.environ, VERIF_REPO=spot + "/repo", VERIF_SEED="1")
                for c in checks(rel):
                    try:
                        r = subprocess.run([spot + "/verif/run.sh", c, "quick", *SCALE], env=env, capture_output=True, timeout=300)
                    except subprocess.TimeoutExpired:
                        res, by = "timeout", c
                        break
                    if r.returncode == 1:
                        res, by = "caught", c
                        break
                    if r.returncode != 0 and c not in by_scale:
                        res, by = "inconclusive", c
        finally:
            open(path, "w").write(old)
            with lock:
                spots.append(spot)
                counts[res] = counts.get(res, 0) + 1
                if res != "tests":
                    with open(out, "a") as f:
                        a, b = old.split("\n"), new.split("\n")
                        f.write(json.dumps({"file": rel, "line": line, "what": what, "res": res, "by": by, "old": a[line - 1].strip(), "new": "\n".join(b[line - 1 : line]).strip(), "src": new}) + "\n")

    with ThreadPoolExecutor(8) as pool:
        list(pool.map(one, todo))
    print(counts)


main()
