"""Runs one check: generates cases, runs the real code on them under a monitor,
collects verdicts and writes evidence.

A check module (harness/checks/<id>.py) provides
  ID, LEVEL, RULE, ASSUMPTIONS, MIN (dict counter -> minimum that must be observed)
  cases(tier, seed)      -> list of JSON-serialisable case specs
  run_case(spec, tmp)    -> Obs
"""
import faulthandler
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_LIMIT = 240
PKG = os.path.join(REPO, "cloudnetpy") + os.sep


class CaseTimeout(BaseException):
    pass


class Obs:
    """What the monitor observed in one case."""

    def __init__(self):
        self.counts = {}
        self.viol = []
        self.sig = None
        self.nontrivial = True
        self.sample = None

    def n(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + int(k)

    def bad(self, key, msg):
        """key: stable mechanism key; msg: concrete details."""
        if len(self.viol) < 40:
            self.viol.append((key, str(msg)[:1500]))

    def check(self, ok, key, msg=""):
        self.n("assertions")
        if not ok:
            self.bad(key, msg() if callable(msg) else msg)
        return bool(ok)


def _alarm(signum, frame):
    raise CaseTimeout


def _in_code_under_test(tb):
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(PKG) for f in frames)


def _run_one(args):
    modname, idx, spec, base = args
    mod = importlib.import_module(modname)
    tmp = tempfile.mkdtemp(dir=base)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CASE_LIMIT", CASE_LIMIT))
    out = {"idx": idx, "counts": {}, "viol": [], "sig": None, "nt": False,
           "sample": None, "err": None, "t": 0.0}
    t0 = time.time()
    try:
        obs = mod.run_case(spec, tmp)
        out.update(counts=obs.counts, viol=obs.viol, sig=obs.sig,
                   nt=obs.nontrivial, sample=obs.sample)
    except CaseTimeout:
        out["err"] = "timeout"
    except Exception as e:  # noqa: BLE001
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if _in_code_under_test(e.__traceback__):
            frames = [f for f in traceback.extract_tb(e.__traceback__)
                      if f.filename.startswith(PKG)]
            out["viol"] = [(f"unexpected-exception:{type(e).__name__}",
                            f"{type(e).__name__}: {e} at "
                            f"{frames[-1].filename}:{frames[-1].lineno}\n{tb}")]
        else:
            out["err"] = tb
    finally:
        signal.alarm(0)
        shutil.rmtree(tmp, ignore_errors=True)
    out["t"] = time.time() - t0
    return out


def load_known(prop):
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    return [f for f in json.loads(path.read_text())["findings"]
            if f["property"] == prop]


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = f"harness.checks.{prop.lower()}"
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    t0 = time.time()
    base = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    try:
        try:
            mod = importlib.import_module(modname)
        except Exception as e:
            if _in_code_under_test(e.__traceback__):
                path = write_replay(prop, {"import": True}, "import-failure", repr(e), seed, tier)
                print(f"VIOLATION property={prop} replay={path}")
                print("  import-failure:", e)
                return 1
            raise
        if "--replay" in argv:
            rp = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
            specs = [rp["case"]]
            tier, seed = rp["tier"], rp["seed"]
        else:
            specs = mod.cases(tier, seed)
        if len(argv) > 1 and argv[1].startswith("--only="):
            specs = [specs[int(i)] for i in argv[1][7:].split(",")]
        return execute(prop, mod, modname, specs, tier, seed, base, t0, argv)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def write_replay(prop, case, key, msg, seed, tier):
    d = VERIF / "evidence" / "replays"
    d.mkdir(parents=True, exist_ok=True)
    h = hashlib.sha1(json.dumps([case, key], sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = d / f"{prop}-{h}.json"
    path.write_text(json.dumps({"property": prop, "tier": tier, "seed": seed,
                                "case": case, "key": key, "message": msg},
                               indent=1, default=str))
    return str(path)


def execute(prop, mod, modname, specs, tier, seed, base, t0, argv):
    nproc = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))
    budget = 780 if tier == "quick" else 7200
    jobs = [(modname, i, s, base) for i, s in enumerate(specs)]
    results, lost = [], []
    if nproc <= 1 or len(jobs) == 1:
        results = [_run_one(j) for j in jobs]
    else:
        ctx = mp.get_context("fork")
        from concurrent.futures import ProcessPoolExecutor, as_completed
        # max_tasks_per_child bounds memory growth without losing warm imports
        ex = ProcessPoolExecutor(nproc, mp_context=ctx)
        futs = {ex.submit(_run_one, j): j for j in jobs}
        try:
            for f in as_completed(futs, timeout=budget):
                try:
                    results.append(f.result())
                except Exception as e:  # worker died
                    lost.append((futs[f][1], repr(e)))
        except TimeoutError:
            done = {r["idx"] for r in results}
            lost += [(j[1], "budget exhausted") for j in jobs if j[1] not in done]
        for p in list((ex._processes or {}).values()):
            if lost:
                p.kill()
        ex.shutdown(wait=not lost, cancel_futures=True)
    results.sort(key=lambda r: r["idx"])
    counts, viols, sigs, errs = {}, {}, set(), []
    samples = []
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        if r["nt"] and r["sig"] is not None:
            sigs.add(r["sig"])
        if r["err"]:
            errs.append((r["idx"], r["err"]))
        for key, msg in r["viol"]:
            viols.setdefault(key, []).append((r["idx"], msg))
        if r["sample"] is not None and len(samples) < 4:
            samples.append(r["sample"])
    known = {f["key"]: f for f in load_known(prop)}
    new = {k: v for k, v in viols.items() if k not in known}
    for k, v in viols.items():
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {k}: {known[k]['what']} ({len(v)} observations)")
    if "--replay" not in argv and not any(a.startswith("--only") for a in argv):
        ev = {
            "property": prop, "tier": tier, "seed": seed,
            "level": mod.LEVEL,
            "coverage": {
                "evaluations": len(results),
                "distinct_nontrivial": len(sigs),
                "rule": mod.RULE,
                "samples": samples or [specs[0] if specs else "none"],
                "observed": dict(sorted(counts.items())),
                "cases_planned": len(specs),
            },
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "wall_s": round(time.time() - t0, 2),
            "violations": sum(len(v) for v in new.values()),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"[{prop}] tier={tier} seed={seed} cases={len(results)}/{len(specs)} "
          f"distinct={len(sigs)} wall={time.time()-t0:.1f}s "
          f"slowest={max((r['t'] for r in results), default=0):.1f}s")
    print(f"[{prop}] observed: " + json.dumps(dict(sorted(counts.items()))))
    if new:
        for k, v in list(new.items())[:25]:
            idx, msg = v[0]
            path = write_replay(prop, specs[idx], k, msg, seed, tier)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {k} ({len(v)} observations, first in case {idx}): {msg}")
        return 1
    if errs or lost:
        print(f"INCONCLUSIVE property={prop}: {len(errs)} harness errors, {len(lost)} lost cases")
        for i, e in (errs + lost)[:5]:
            print(f"  case {i}: {e}")
        return 2
    short = {k: (counts.get(k, 0), m) for k, m in getattr(mod, "MIN", {}).items()
             if counts.get(k, 0) < m}
    if short and "--replay" not in argv and not any(a.startswith("--only") for a in argv):
        print(f"INCONCLUSIVE property={prop}: too little observed: {short}")
        return 2
    print(f"OK property={prop}")
    return 0


if __name__ == "__main__":
    faulthandler.enable()
    sys.exit(main(sys.argv[1:]))
