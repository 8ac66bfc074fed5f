"""Engine: seeded cases, event recording, verdicts, evidence.

Verdicts are three-valued.  0: held on everything observed.  1: violated, with a
VIOLATION line and a replay file.  2: inconclusive (harness error, dead worker,
or the deciding monitor was not reached often enough)."""

from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing
import os
import random
import re
import resource as rlimit
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYSRC = os.path.join(REPO, "python")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
QUICK = 3  # how many times the case numbers given in the families the quick tier runs
CPU_LIMIT = 20.0  # CPU seconds (not wall clock) for one case that normally takes milliseconds


class Hang(BaseException):
    """A case used CPU_LIMIT seconds of its own CPU time."""


class Skip(Exception):
    """This case is outside the property's domain."""


class Violation(Exception):
    def __init__(self, kind: str, msg: str, **detail):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.detail = kind, msg, detail


class Ctx:
    """What one case sees: its random choices, and where it reports what it observed."""

    def __init__(self, seed: int, pid: str, family: str, index: int):
        self.seed, self.pid, self.family, self.index = seed, pid, family, index
        self.rng = random.Random(f"{seed}:{pid}:{family}:{index}")
        self.events: Counter = Counter()
        self.key: str | None = None
        self.sample = None
        self.nontrivial = True
        self.violations: list[tuple[str, str, dict]] = []
        self.info: dict = {}

    def ev(self, name: str, n: int = 1) -> None:
        self.events[name] += n

    def case(self, key, sample=None, nontrivial: bool = True) -> None:
        self.key = key if isinstance(key, str) else repr(key)
        self.sample = sample if sample is not None else self.key
        self.nontrivial = nontrivial

    def fail(self, kind: str, msg: str, **detail) -> None:
        """Report a violation and end the case."""
        raise Violation(kind, msg, **detail)

    def report(self, kind: str, msg: str, **detail) -> None:
        """Report a violation and go on."""
        self.violations.append((kind, msg, detail))

    def check(self, cond, kind: str, msg: str = "", **detail) -> None:
        self.events["checks"] += 1
        if not cond:
            raise Violation(kind, msg, **detail)

    def eq(self, got, want, kind: str, msg: str = "", **detail) -> None:
        self.events["checks"] += 1
        if got != want:
            raise Violation(kind, msg, got=show(got), want=show(want), **detail)


def show(x, n: int = 4000) -> str:
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + f"...[{len(s)} chars]"


class Family:
    def __init__(self, name, fn, quick, thorough, need=()):
        """`need`: events that must have been observed, else the run is inconclusive."""
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.need = tuple(need)


def in_repo(tb) -> str | None:
    """Innermost frame of the code under test in a traceback."""
    where = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(PYSRC + os.sep):
            where = f"{os.path.relpath(fr.filename, PYSRC)}:{fr.name}"
    return where


def _alarm(sig, frame):
    raise Hang()


def run_case(fam: Family, pid: str, seed: int, index: int):
    ctx = Ctx(seed, pid, fam.name, index)
    out = {"family": fam.name, "index": index, "error": None}
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        fam.fn(ctx)
    except Violation as v:
        ctx.violations.append((v.kind, v.msg, v.detail))
    except Skip:
        ctx.events["skipped"] += 1
        ctx.key = None
    except Hang as e:
        where = in_repo(e.__traceback__)
        ctx.violations.append(("no-termination", f"no result within {CPU_LIMIT} CPU seconds, in {where}", {}))
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        where = in_repo(e.__traceback__)
        text = "".join(traceback.format_exception(e))
        if where is None:
            out["error"] = text
        else:
            ctx.violations.append((f"exception:{type(e).__name__}", f"{e} (in {where})",
                                   {"traceback": text[-3000:]}))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    out.update(events=ctx.events, violations=ctx.violations, info=ctx.info,
               key=None if ctx.key is None else hashlib.sha1(ctx.key.encode("utf-8", "surrogatepass")).hexdigest()[:16],
               nontrivial=ctx.nontrivial, sample=ctx.sample)
    return out


_FAMS: dict = {}
_KNOWN: dict = {}


def _job(arg):
    fname, pid, seed, lo, hi = arg
    fam = _FAMS[fname]
    ev: Counter = Counter()
    hits: Counter = Counter()
    keys, samples, viols, errors, n = set(), [], [], [], 0
    for i in range(lo, hi):
        r = run_case(fam, pid, seed, i)
        n += 1
        ev.update(r["events"])
        if r["key"] is not None and r["nontrivial"]:
            keys.add(r["key"])
            if i == lo or not samples:
                samples.append({"family": fname, "case": show(r["sample"], 600)})
        for kind, msg, detail in r["violations"]:
            if kind in _KNOWN:
                hits[kind] += 1
            elif len(viols) < 40:
                viols.append({"family": fname, "index": i, "kind": kind, "msg": show(msg, 1500),
                              "detail": {k: show(v) for k, v in detail.items()},
                              "sample": show(r["sample"], 8000), "info": {k: show(v) for k, v in r["info"].items()}})
        if r["error"] and len(errors) < 3:
            errors.append(f"{fname}[{i}]: {r['error']}")
        if sum(v["kind"] == "no-termination" for v in viols) >= 2:
            break  # each of these takes its whole CPU time
    return {"family": fname, "n": n, "events": ev, "keys": keys, "samples": samples[:1], "viols": viols, "errors": errors, "hits": hits}


def load(pid: str):
    sys.path.insert(0, PYSRC)
    import moz.l10n.model as m  # the code under test, from the working tree

    assert os.path.abspath(m.__file__).startswith(PYSRC + os.sep), m.__file__
    mod = importlib.import_module(f"mon.props.{pid.lower()}")
    return mod


def known(pid: str) -> dict:
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m[1] == pid:
                res[m[2]] = m[3]
    return res


def main(argv) -> int:
    t0 = time.time()
    pid = argv[0].upper()
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    only = argv[argv.index("--family") + 1] if "--family" in argv else None
    scale = float(argv[argv.index("--scale") + 1]) if "--scale" in argv else 1.0
    jobs_n = int(argv[argv.index("--jobs") + 1]) if "--jobs" in argv else min(8, os.cpu_count() or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rlimit.setrlimit(rlimit.RLIMIT_CORE, (0, 0))
    try:
        mod = load(pid)
    except Exception as e:
        where = in_repo(e.__traceback__)
        traceback.print_exc()
        if where:
            path = write_replay(pid, {"kind": "import", "msg": str(e), "family": "", "index": 0}, seed, tier)
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        return 2
    fams = mod.FAMILIES
    for f in fams:
        _FAMS[f.name] = f

    if replay:
        r = json.load(open(replay))
        res = run_case(_FAMS[r["family"]], pid, r["seed"], r["index"])
        print(json.dumps({k: v for k, v in res.items() if k != "events"}, indent=1, default=str, ensure_ascii=False))
        if res["error"]:
            return 2
        if res["violations"]:
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        return 0

    _KNOWN.update(known(pid))
    kn = _KNOWN
    jobs = []
    for f in fams:
        if only and f.name != only:
            continue
        n = f.thorough if tier == "thorough" else min(f.thorough, QUICK * f.quick) if f.quick else 0
        n = max(min(n, 60), int(n * scale)) if n else 0
        chunk = max(1, min(200, n // (jobs_n * 4) or 1))
        jobs += [(f.name, pid, seed, lo, min(n, lo + chunk)) for lo in range(0, n, chunk)]
    random.Random(0).shuffle(jobs)
    ev: Counter = Counter()
    evf: dict = {}
    keys, samples, viols, errors, n = set(), {}, [], [], 0
    budget = 820 if tier == "quick" else 6 * 3600
    stalled = False
    if jobs_n > 1 and len(jobs) > 1:
        ctx = multiprocessing.get_context("fork")
        from concurrent.futures import ProcessPoolExecutor, as_completed
        with ProcessPoolExecutor(jobs_n, mp_context=ctx) as ex:
            futs = [ex.submit(_job, j) for j in jobs]
            results = []
            try:
                for fu in as_completed(futs, timeout=budget):
                    try:
                        results.append(fu.result())
                    except Exception as e:
                        errors.append(f"worker: {e!r}")
                        break
                    if sum(len(r["viols"]) for r in results) > 400:
                        break
            except TimeoutError:
                stalled = True
            if stalled or errors or len(results) < len(jobs):
                for fu in futs:
                    fu.cancel()
                for p in list((ex._processes or {}).values()):
                    p.terminate()
    else:
        results = [_job(j) for j in jobs]
    for r in results:
        n += r["n"]
        ev.update(r["events"])
        evf.setdefault(r["family"], Counter()).update(r["events"])
        evf[r["family"]]["cases"] += r["n"]
        keys |= r["keys"]
        viols += r["viols"]
        errors += r["errors"]
        for s in r["samples"]:
            samples.setdefault(r["family"], [])
            if len(samples[r["family"]]) < 2:
                samples[r["family"]].append(s)

    fresh, hit = {}, Counter()
    for r in results:
        hit.update(r["hits"])
    for v in sorted(viols, key=lambda v: (v["family"], v["index"])):
        fresh.setdefault((v["family"], v["kind"]), v)
    for k in kn:
        if hit[k]:
            print(f"KNOWN-FINDING: property={pid} {k}: {kn[k]}")
    missing = [] if only else [f"{f.name}:{e}" for f in fams for e in f.need
               if (f.thorough if tier == "thorough" else f.quick) and not evf.get(f.name, Counter())[e]]
    os.makedirs(EVID, exist_ok=True)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(keys),
            "rule": getattr(mod, "RULE", "cases are seeded random; distinct by their full input; trivial ones (empty input) are not counted"),
            "samples": [s for f in fams for s in samples.get(f.name, [])] or ["none"],
            "observed_events": dict(sorted(ev.items())),
            "events_by_family": {f: dict(sorted(c.items())) for f, c in sorted(evf.items())},
            "known_findings_seen": dict(hit),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w", encoding="utf-8") as f:
        f.write(json.dumps(evidence, indent=1, ensure_ascii=True, default=str))
    for (fam, kind), v in list(fresh.items())[:10]:
        path = write_replay(pid, v, seed, tier)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {fam}[{v['index']}] {kind}: {v['msg'][:800]}")
        for k, d in v["detail"].items():
            if k != "traceback" or "-v" in argv:
                print(f"    {k}: {d[:1500]}")
    print(f"{pid} {tier} seed={seed}: {n} cases, {len(keys)} distinct, {sum(ev.values())} events, "
          f"{len(fresh)} violation kinds, {time.time() - t0:.1f}s")
    if fresh:
        return 1
    for e in errors[:5]:
        print("HARNESS ERROR", e[:3000])
    if errors or stalled:
        print("inconclusive:", "stalled" if stalled else "harness error")
        return 2
    if missing:
        print("inconclusive: never observed", missing)
        return 2
    return 0


def write_replay(pid, v, seed, tier) -> str:
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{pid}-{v['family']}-{v['kind']}-{seed}-{v['index']}")[:120]
    path = os.path.join(d, name + ".json")
    with open(path, "w", encoding="utf-8") as f:
        f.write(json.dumps({"property": pid, "seed": seed, "tier": tier, **v}, indent=1, ensure_ascii=True, default=str))
    return os.path.relpath(path, VERIF)
