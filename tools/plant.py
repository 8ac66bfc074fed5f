#!/opt/venv/bin/python
"""Development helper: verify planted bugs (/verif/seeded/<id>) in a scratch copy.  usage: plant.py [--tests] [--seed N] id..."""
import json, os, shutil, subprocess, sys, tempfile
S = "/verif/seeded"
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(S))
tests = "--tests" in sys.argv
def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env={**os.environ, **(env or {})})
def original(diff):
    """How many of the lines that a patch removes are of the original repository, and how many are not."""
    base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.strip()
    good = bad = 0
    f, n, blame = None, 0, []
    for line in diff.splitlines():
        if line.startswith("--- "):
            f = line[6:]
            blame = [x.split()[0].lstrip("^") for x in sh(f"git blame -l -s HEAD -- {f}", "/repo").stdout.splitlines()]
        elif line.startswith("@@"):
            n = int(line.split()[1][1:].split(",")[0])
        elif line.startswith("-"):
            if base.startswith(blame[n - 1]): good += 1
            else: bad += 1
            n += 1
        elif not line.startswith("+") and f:
            n += 1
    return good, bad
RES = "/verif/tools/plant_results.json"
def record(id, text):
    import fcntl
    with open(RES + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = json.load(open(RES)) if os.path.exists(RES) else {}
        r[id] = text
        json.dump({k: r[k] for k in sorted(r) if os.path.isdir(f"{S}/{k}")}, open(RES, "w"), indent=0)
for id in ids:
    d = f"{S}/{id}"
    meta = json.load(open(f"{d}/meta.json"))
    tmp = tempfile.mkdtemp(prefix="plant-")
    repo = tmp + "/repo"
    try:
        sh(f"cp -a /repo {repo}", "/")
        dd = tmp + "/demo"
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        def demo():  # the demo runs with cwd = the copy; PYTHONPATH points at the copy instead of the installed /repo
            return sh(f"bash {dd}/demo.sh", repo, {"PYTHONPATH": repo + "/python"})
        clean = demo().returncode
        ap = sh(f"git apply {d}/patch.diff", repo)
        if ap.returncode:
            print(id, "PATCH FAILS", ap.stderr[:300]); continue
        bug = demo()
        t = sh(f"PYTHONPATH={repo}/python /opt/venv/bin/python -m pytest -q -p no:cacheprovider python/tests 2>&1 | tail -3", repo).stdout.strip().splitlines()[-1] if tests else "tests not run"
        r = sh(f"VERIF_REPO={repo} ./run.sh {meta['property']} quick", "/verif", {"VERIF_SEED": "1"})
        hit = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  "))][:2]
        kind = hit[1].split("] ", 1)[-1].split(":")[0] if len(hit) > 1 else ""
        record(id, f"caught ({hit[1].strip().split(chr(91))[0]}: {kind})" if r.returncode == 1 and hit else f"missed (exit {r.returncode})")
        good, bad = original(open(f"{d}/patch.diff").read())
        print(f"{id} {meta['property']}: original lines {good}, others {bad} | demo clean={clean} bug={bug.returncode} | {t} | check rc={r.returncode} {'CAUGHT' if r.returncode == 1 and hit else 'MISSED'} {hit[1][:160] if len(hit) > 1 else r.stdout[-300:] if r.returncode not in (0, 1) else ''}", flush=True)
    finally:
        shutil.rmtree(tmp)
