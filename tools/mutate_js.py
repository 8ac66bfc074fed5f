"""Random single-point mutants of the TypeScript sources, run against C30 and C31 on copies. A development tool.

    mutate_js.py OUT.jsonl N [SEED] [FILE-SUBSTRING]
"""
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

RULES = [
    (r"===", "!=="), (r"!==", "==="), (r"&&", "||"), (r"\|\|", "&&"), (r"\?\?", "||"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1\b", ""), (r" - 1\b", ""),
    (r"\b0\b", "1"), (r"\b1\b", "2"), (r" > ", " >= "), (r" < ", " <= "), (r" >= ", " > "), (r" <= ", " < "), (r"\bif \(([^{}]*?)\) ", r"if (!(\1)) "), (r"\bif \(([^{}]*?)\) ", r"if (false) "),
    (r"\bif \(([^{}]*?)\) ", r"if (true) "), (r"\bcontinue\b", ""), (r"\bbreak\b", ""), (r"^\s*[\w.\[\]]+ \+?= [^{(\n]*$", ""), (r"^\s*[\w.]+\([^{\n]*\)$", ""), (r"!(?=\w)", ""), (r"\.trim\(\)", ""), (r"\.toLowerCase\(\)", ""),
    (r"return (?=\S)([^{}\n]+)$", "return undefined as any"), (r"'([^'\n]{2,})'", lambda m: "'" + m[1][1:] + "'"), (r"'([^'\n]{1,})'", "''"), (r"\.slice\((\d), ", r".slice(\1 + 1, "), (r"/gu\b", "/u"), (r"\?\.", "."),
]


def mutants(src):
    out = []
    for rx, new in RULES:
        for m in re.finditer(rx, src, re.M):
            line = src.count("\n", 0, m.start() + len(m[0]) - len(m[0].lstrip())) + 1
            text = src.split("\n")[line - 1]
            if text.lstrip().startswith(("*", "//", "/*", "import", "export type", "} from")):
                continue
            res = src[: m.start()] + (new(m) if callable(new) else m.expand(new)) + src[m.end() :]
            if res != src:
                out.append((line, rx, res))
    return out


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
    part = sys.argv[4] if len(sys.argv) > 4 else ""
    random.seed(seed)
    todo = []
    for f in sorted(glob.glob("/repo/js/src/*.ts")):
        if f.endswith(".test.ts") or f.endswith("/model.ts") or part not in f:
            continue
        todo += [(os.path.basename(f), *m) for m in mutants(open(f).read())]
    print(len(todo), "mutants", flush=True)
    random.shuffle(todo)
    lock, spots = Lock(), [f"/tmp/mutjs/w{i}" for i in range(8)]
    for s in spots:
        shutil.rmtree(s, ignore_errors=True)
        os.makedirs(s)
        shutil.copytree("/repo", s + "/repo", symlinks=True)
        shutil.copytree("/verif", s + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded"), symlinks=True)
        os.makedirs(s + "/verif/evidence/replays")
    counts = {}

    def one(m):
        name, line, what, new = m
        with lock:
            spot = spots.pop()
        path = f"{spot}/repo/js/src/{name}"
        old = open(path).read()
        res, by = "survived", None
        try:
            open(path, "w").write(new)
            r = subprocess.run(["node", "--experimental-strip-types", "--no-warnings", "--check", path], capture_output=True)
            if r.returncode:
                res = "syntax"
                return
            env = dict(os.environ, VERIF_REPO=spot + "/repo", VERIF_SEED="1")
            for c in ("C31", "C30") if name == "model-utils.ts" else ("C30", "C31"):
                try:
                    r = subprocess.run([spot + "/verif/run.sh", c, "quick", "--jobs", "1", "--scale", "0.15"], env=env, capture_output=True, timeout=300)
                except subprocess.TimeoutExpired:
                    res, by = "timeout", c
                    break
                if r.returncode == 1:
                    res, by = "caught", c
                    break
        finally:
            open(path, "w").write(old)
            with lock:
                spots.append(spot)
                counts[res] = counts.get(res, 0) + 1
                a, b = old.split("\n"), new.split("\n")
                with open(out, "a") as f:
                    f.write(json.dumps({"file": name, "line": line, "what": what, "res": res, "by": by, "old": a[line - 1].strip(), "new": b[line - 1].strip() if line <= len(b) else "", "src": new}) + "\n")

    with ThreadPoolExecutor(8) as pool:
        list(pool.map(one, todo[:n]))
    print(counts)
    shutil.rmtree("/tmp/mutjs", ignore_errors=True)


if __name__ == "__main__":
    main()
