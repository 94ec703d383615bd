"""C22: a run gives the same file in a fresh process and after any history of other runs in the same process."""
import copy
import os
import pathlib
import pickle
import subprocess
import sys
import time
import warnings

import numpy as np
from numpy import ma

from .. import jobs
from ..runner import Obs

ID, LEVEL = "C22", "exploration"
RULE = ("each processing step (45 instrument formats, categorize, six retrievals, dissipation rates, level 3) run in a process that has done nothing before, in one that has first made 1-5 other runs "
        "(other steps, the same step with other data, damaged input), twice in a row, under another time zone and working directory, and with another hash seed; complete files compared; process-wide "
        "settings and arguments of the caller compared before and after; distinct by step and seed")
ASSUMPTIONS = ["the file identifier and the time of creation are not compared"]
MIN = {"targets": 160, "histories": 160, "earlier_runs": 450, "earlier_same": 120, "earlier_failed": 60, "compared": 300, "twice": 50, "zones": 50, "hash_seeds": 8, "kind:text": 60, "kind:nc": 40, "kind:product": 20, "kind:l3": 10,
       "kind:categorize": 15, "kind:epsilon": 5, "arguments": 60, "settings": 150}
ZONES = ("Asia/Kolkata", "America/New_York", "Pacific/Kiritimati", "XYZ+11:30", "Europe/Helsinki")


def cases(tier, seed):
    m = 4 if tier == "quick" else 40
    out = []
    for i in range(m):
        for j, (k, n) in enumerate(jobs.KINDS):
            reps = 2 if k in ("product", "l3", "epsilon") else 8 if k == "categorize" else 1
            out += [{"seed": seed * 1000000 + i * 1000 + j * 10 + r, "kind": k, "fmt": n, "mode": "fork"} for r in range(reps)]
    n = 3 if tier == "quick" else 30
    rng = np.random.default_rng(seed)
    for i in range(n):
        for j in rng.permutation(len(jobs.KINDS))[:8]:
            k, name = jobs.KINDS[j]
            out.append({"seed": seed * 1000000 + 900000 + i * 1000 + int(j), "kind": k, "fmt": name, "mode": "hash"})
    return out


def settings():
    import decimal
    import locale

    import netCDF4
    return {"cwd": os.getcwd(), "numpy errors": dict(np.geterr()), "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL), "decimal": repr(decimal.getcontext()),
            "print": dict(np.get_printoptions()), "masked": (float(ma.masked.data), bool(ma.masked.mask)), "fill": dict(netCDF4.default_fillvals), "zone": time.tzname, "path": list(sys.path),
            "ma fill": dict(ma.core.default_filler), "umask": _umask()}


def _umask():
    m = os.umask(0)
    os.umask(m)
    return m


class Arguments:
    """monitor on the public functions: mutable arguments keep their value"""

    def __init__(self):
        self.bad, self.calls, self.undo = [], 0, []

    def __enter__(self):
        import cloudnetpy.categorize as c
        import cloudnetpy.instruments as i
        import cloudnetpy.products as p
        for mod in (c, i, p):
            for name, f in list(vars(mod).items()):
                if callable(f) and not isinstance(f, type) and (name.endswith("2nc") or name.startswith("generate_")):
                    self.undo.append((mod, name, f))
                    setattr(mod, name, self.wrap(name, f))
        return self

    def wrap(self, name, f):
        def g(*a, **k):
            before = copy.deepcopy([x for x in (*a, *k.values()) if isinstance(x, (dict, list, set))])
            try:
                return f(*a, **k)
            finally:
                self.calls += 1
                after = [x for x in (*a, *k.values()) if isinstance(x, (dict, list, set))]
                if repr(before) != repr(after):
                    self.bad.append(f"{name}: {before} became {after}"[:300])
        return g

    def __exit__(self, *_):
        for mod, name, f in self.undo:
            setattr(mod, name, f)


def spoil(rng, job):
    """damages one input of a job"""
    p = job.inputs[int(rng.integers(len(job.inputs)))]
    data = pathlib.Path(p).read_bytes()
    how = int(rng.integers(4))
    if how == 0:
        os.remove(p)
    elif how == 1:
        pathlib.Path(p).write_bytes(b"")
    elif how == 2:
        pathlib.Path(p).write_bytes(data[:int(len(data) * rng.uniform(.1, .9))])
    else:
        pathlib.Path(p).write_bytes(bytes(rng.integers(0, 256, 500, dtype=np.uint8)))


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    jobs.warm()
    tmp = str(tmp)
    obs.n("targets")
    obs.n("kind:" + spec["kind"])
    obs.sig = f"{spec['kind']}:{spec['fmt']}:{spec['seed']}"
    (hashed if spec["mode"] == "hash" else forked)(obs, rng, spec, tmp)
    obs.sample = {"step": f"{spec['kind']}:{spec['fmt']}", **{k: v for k, v in obs.counts.items() if k in ("earlier_runs", "compared")}}
    return obs


def compare(obs, key, spec, a, b, what):
    obs.n("compared")
    if a[0] == "died" or b[0] == "died":
        obs.bad("died", f"{spec['kind']}:{spec['fmt']} {what}: {a[:2]} {b[:2]}")
        return
    if not obs.check(a[0] == b[0], key + "-outcome", lambda: f"{spec['kind']}:{spec['fmt']} {what}: {show(a)} in a fresh process, {show(b)}"):
        return
    if a[0] == "error":
        obs.n("errors")
        obs.check(a[1:3] == b[1:3], key + "-error", lambda: f"{spec['kind']}:{spec['fmt']} {what}: {show(a)} in a fresh process, {show(b)}")
        return
    d = jobs.difference(a[1], b[1])
    obs.check(not d, key, lambda: f"{spec['kind']}:{spec['fmt']} {what}: {len(d)} differences, {d[:3]}")


def show(x):
    return "a file" if x[0] == "file" else str(x[1:])[:200]


def forked(obs, rng, spec, tmp):
    target = jobs.prepare(rng, spec["kind"], spec["fmt"], tmp + "/target")
    out = tmp + "/out.nc"
    n = int(rng.integers(1, 6))
    earlier, label = [], []
    for i in range(n):
        k, name = (spec["kind"], spec["fmt"]) if rng.random() < .45 else jobs.KINDS[int(rng.integers(len(jobs.KINDS)))]
        j = jobs.prepare(rng, k, name, f"{tmp}/h{i}")
        if (k, name) == (spec["kind"], spec["fmt"]):
            obs.n("earlier_same")
        s = rng.random() < .3
        if s:
            spoil(rng, j)
        earlier.append(j)
        label.append(f"{j}{' damaged' if s else ''}")
    obs.n("histories")
    obs.n("earlier_runs", n)

    def alone():
        with Arguments() as m:
            s0 = settings()
            r = jobs.outcome(target, out, scrub=(tmp,))
            s1 = settings()
        return r, [k for k in s0 if s0[k] != s1[k]], m.bad, m.calls

    def after():
        fails = 0
        for i, j in enumerate(earlier):
            r = jobs.outcome(j, f"{tmp}/e{i}.nc")
            fails += r[0] == "error"
        return jobs.outcome(target, out, scrub=(tmp,)), fails

    def twice():
        jobs.outcome(target, out, scrub=(tmp,))
        return jobs.outcome(target, out, scrub=(tmp,))

    def elsewhere():
        os.environ["TZ"] = zone
        time.tzset()
        os.makedirs(tmp + "/cwd", exist_ok=True)
        os.chdir(tmp + "/cwd")
        warnings.simplefilter("ignore")
        return jobs.outcome(target, out, scrub=(tmp,))
    a = jobs.in_fork(alone)
    if a[0] == "died":
        return obs.bad("died", f"{target}: {a}")
    a, changed, bad, calls = a
    obs.n("settings")
    obs.n("arguments", calls)
    obs.check(not changed, "settings-changed", lambda: f"{target} changed {changed}")
    obs.check(not bad, "argument-modified", lambda: f"{bad[:2]}")
    if a[0] == "error":
        obs.n("target_failed")
    if os.path.exists(out):
        os.remove(out)
    b = jobs.in_fork(after)
    if b[0] == "died":
        return obs.bad("died", f"{target} after {label}: {b}")
    b, fails = b
    obs.n("earlier_failed", fails)
    compare(obs, "history", spec, a, b, f"after {label}")
    if rng.random() < .4:
        obs.n("twice")
        compare(obs, "repeated", spec, a, jobs.in_fork(twice), "a second time")
    if rng.random() < .4:
        zone = str(rng.choice(ZONES))
        if spec["kind"] == "mwrpy":  # the retrieval library itself uses local time
            zone = os.environ.get("TZ", "UTC")
        obs.n("zones")
        compare(obs, "environment", spec, a, jobs.in_fork(elsewhere), f"with TZ={zone} in another directory")


def hashed(obs, rng, spec, tmp):
    res = []
    for h in (0, int(rng.integers(1, 4_000_000))):
        d = tmp + "/in"
        os.makedirs(d, exist_ok=True)
        f = f"{tmp}/res{h}"
        env = {**os.environ, "PYTHONHASHSEED": str(h)}
        root = pathlib.Path(__file__).resolve().parents[2]
        env["PYTHONPATH"] = os.pathsep.join([str(root), *[p for p in sys.path if p]])
        r = subprocess.run([sys.executable, "-m", "harness.jobs", spec["kind"], spec["fmt"], str(spec["seed"]), d, tmp + "/out.nc", f], env=env, cwd=root, capture_output=True, text=True, timeout=200)
        if r.returncode or not os.path.exists(f):
            raise RuntimeError(r.stderr[-1500:])
        with open(f, "rb") as fh:
            res.append(pickle.load(fh))
        if os.path.exists(tmp + "/out.nc"):
            os.remove(tmp + "/out.nc")
    obs.n("hash_seeds")
    compare(obs, "hash-seed", spec, res[0], res[1], "with another PYTHONHASHSEED")
