"""C23: failing runs raise, leave inputs and existing outputs alone, leave no partial output and nothing open."""
import hashlib
import os
import pathlib
import resource
import signal

import netCDF4
import numpy as np

from .. import gen, jobs, mwr
from ..runner import Obs

ID, LEVEL = "C23", "exploration"
RULE = ("every processing step run on intact input and with each of its inputs missing, empty, overwritten, truncated, without a needed variable, wholly masked, and with an output that cannot be created or fully written; "
        "digests of inputs, output directory, temporary directory and open file descriptors observed; distinct by step, damage and seed")
ASSUMPTIONS = ["descriptors that the RPG reader library leaves open on truncated files, and deleted temporary files that mwrpy leaves open, are not judged", "the library pads truncated files of the classic netCDF format",
               "text logs and telegram files may be truncated or contain noise and still be converted"]
MIN = {"intact": 100, "missing": 60, "empty": 60, "garbage": 60, "truncated": 60, "variable": 80, "masked": 5, "attribute": 30, "site": 30, "flagged": 10, "unwritable": 40, "full": 40, "errors": 350, "fds": 600, "digests": 900, "existing": 150, "leftovers": 350}
NEEDED = {"categorize": {"radar": ("Zh", "v", "time", "range", "altitude", "radar_frequency"), "lidar": ("beta", "time", "wavelength"), "mwr": ("lwp", "time"), "disdrometer": ("time",),
                         "model": ("temperature", "pressure", "q", "uwind", "vwind", "time", "height")},
          "product": {"classification": ("category_bits", "quality_bits", "time", "height"), "iwc": ("category_bits", "quality_bits", "Z", "Z_error", "Z_sensitivity", "temperature", "radar_frequency", "time"),
                      "ier": ("category_bits", "quality_bits", "Z", "temperature", "radar_frequency", "time"), "lwc": ("category_bits", "quality_bits", "lwp", "lwp_error", "temperature", "pressure", "time"),
                      "der": ("category_bits", "quality_bits", "Z", "lwp", "time"), "drizzle": ("category_bits", "quality_bits", "Z", "beta", "v", "v_sigma", "radar_frequency", "time")},
          "l3": {"model": ("cloud_fraction", "temperature", "pressure", "qi", "ql", "height", "time", "uwind", "vwind", "horizontal_resolution")},
          "mwrpy": {x: ("tb", "time", "quality_flag", "pointing_flag", "latitude") for x in jobs.MWRPY},
          "epsilon": {"radar": (("v", "time", "altitude"), ("uwind", "vwind", "height", "time")), "lidar": (("v", "time", "height"), ("uwind", "vwind", "height", "time"))}}
BINARY = ("nc", "categorize", "product", "l3", "epsilon", "mwrpy")


def damages(kind, fmt=None):
    d = ["intact", "missing", "empty", "garbage", "truncated", "unwritable", "full"]
    if kind in NEEDED:
        d += ["variable"] * 3 + ["attribute"] * 2
    else:
        d.append("site")
    if kind == "categorize":
        d += ["masked"] * 2
    if kind == "mwrpy" or fmt == "hatpro-l1c":
        d += ["flagged"] * 2
    return d


def cases(tier, seed):
    m = 2 if tier == "quick" else 20
    out = []
    for i in range(m):
        for j, (k, n) in enumerate(jobs.KINDS):
            reps = 2 if k in ("product", "l3", "epsilon", "categorize", "mwrpy") else 1
            for r in range(reps):
                for q, dmg in enumerate(damages(k, n)):
                    out.append({"seed": seed * 10000000 + i * 100000 + j * 1000 + r * 100 + q, "kind": k, "fmt": n, "damage": dmg})
    return out


def digest(p):
    try:
        return hashlib.sha256(pathlib.Path(p).read_bytes()).hexdigest()
    except OSError as e:
        return type(e).__name__


def opened(tmp):
    """descriptors of this process that point into the scratch directory"""
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if p.startswith(tmp):
            out.append(p[len(tmp):])
    return sorted(out)


def listing(d):
    return sorted(os.path.join(r, f)[len(d):] for r, _, fs in os.walk(d) for f in fs)


def drop_variable(p, names, rng):
    with netCDF4.Dataset(p, "a") as nc:
        have = [n for n in names if n in nc.variables]
        if not have:
            return None
        n = have[int(rng.integers(len(have)))]
        nc.renameVariable(n, "removed_variable")
    return n


def apply_damage(rng, spec, job):
    """-> (damaged path, whether an error is due)"""
    k, d = spec["kind"], spec["damage"]
    i = int(rng.integers(len(job.inputs)))
    p = job.inputs[i]
    if d == "missing":
        os.remove(p)
    elif d == "empty":
        open(p, "wb").close()
    elif d == "garbage":
        n = int(rng.integers(1, 3000))
        pathlib.Path(p).write_bytes(bytes(rng.integers(0, 256, n, dtype=np.uint8)))
    elif d == "truncated":
        data = pathlib.Path(p).read_bytes()
        pathlib.Path(p).write_bytes(data[:int(len(data) * rng.uniform(.05, .95))])
    elif d == "variable":
        n = NEEDED[k]
        if k == "categorize":
            inst = [x for x in ("radar", "lidar", "mwr", "disdrometer") if f"in_{x}" in p] or ["model"]
            names = n[inst[0]]
        elif k in ("product", "mwrpy"):
            names = n[spec["fmt"]]
        elif k == "l3":
            if p.endswith("obs.nc"):
                names = ("time", "height", *(("category_bits", "quality_bits", "radar_frequency", "Z_sensitivity") if spec["fmt"] == "cf" else (spec["fmt"],)))
                if spec["fmt"] == "cf":
                    names = ("time", "height", "category_bits")
            else:
                names = {"cf": ("cloud_fraction",), "iwc": ("qi", "temperature", "pressure"), "lwc": ("ql", "temperature", "pressure")}[spec["fmt"]] + ("height", "time", "uwind", "vwind", "horizontal_resolution")
        else:
            names = n[spec["fmt"]][i]
        return p, drop_variable(p, names, rng) or "?"
    elif d == "attribute":
        with netCDF4.Dataset(p, "a") as nc:
            c = [a for a in ("location", "source", "history", "year", "day", "file_uuid", "mwrpy_coefficients", "instrument_pid") if a in nc.ncattrs()]
            n = c[int(rng.integers(len(c)))]
            nc.delncattr(n)
        return p, n
    elif d == "site":
        n = str(rng.choice(["name", "name", "altitude", "latitude"]))
        if spec["fmt"] == "hatpro-l1c":
            n = str(rng.choice(["name", "coefficientLinks"]))
        if k == "text":
            base = job.fmt.meta
            job.fmt.meta = lambda *a, **kw: {q: v for q, v in base(*a, **kw).items() if q != n}
        else:
            job.fmt.site.pop(n, None)
        return None, n
    elif d == "flagged":
        if k == "mwrpy":
            mwr.flag_everything(p)
        else:
            mwr.receivers_off(job.inputs)
        return p, None
    elif d == "masked":
        with netCDF4.Dataset(p, "a") as nc:
            c = [x for x in ("Zh", "v", "beta", "lwp", "rainfall_rate", "temperature") if x in nc.variables]
            n = c[int(rng.integers(len(c)))]
            nc[n][:] = np.ma.masked_all(nc[n].shape)
        return p, n
    return p, None


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    jobs.warm()
    tmp = os.path.realpath(str(tmp))
    k, d = spec["kind"], spec["damage"]
    job = jobs.prepare(rng, k, spec["fmt"], tmp + "/in")
    for x in ("out", "scratch", "cwd"):
        os.makedirs(f"{tmp}/{x}")
    path, what = (None, None) if d in ("intact", "unwritable", "full") else apply_damage(rng, spec, job)
    if what == "?":
        obs.nontrivial = False
        return obs
    obs.n(d)
    out = tmp + "/out/out.nc"
    existing = d != "unwritable" and rng.random() < .5
    if existing:
        with gen._nc(out) as nc:
            gen._globals(nc, "radar", "before", gen.rand_uuid(rng))
        obs.n("existing")
    if d == "unwritable":
        out = str(rng.choice([tmp + "/absent/out.nc", tmp + "/out"]))
    before = {p: digest(p) for p in job.inputs}
    names = listing(tmp + "/in")
    old = digest(out)

    def child():
        os.environ["TMPDIR"] = tmp + "/scratch"
        import tempfile
        tempfile.tempdir = None
        os.chdir(tmp + "/cwd")
        if d == "full":
            import faulthandler
            faulthandler.disable()
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (int(rng.choice([0, 600, 5000])), resource.RLIM_INFINITY))
        r = outcome(job, out, d)
        return r, opened(tmp), listing(tmp + "/scratch"), listing(tmp + "/cwd")
    r = jobs.in_fork(child)
    label = f"{k}:{spec['fmt']}, {d}{' ' + str(what) if what else ''}{' ' + os.path.basename(path) if path else ''}"
    if r[0] == "died" and d == "full":  # HDF5 crashes when it cannot flush: the failure is not hidden
        obs.n("write_crash")
        obs.n("errors")
        return obs
    if r[0] == "died":
        obs.bad("died", f"{label}: process ended with status {r[1]}")
        return obs
    r, fds, scratch, cwd = r
    failed = r[0] == "error"
    obs.n("errors" if failed else "successes")
    obs.n("fds")
    obs.n("digests", len(before))
    told = f"{label}: {'raised ' + r[1] + ' ' + r[2][:100] if failed else 'succeeded'}"
    changed = [os.path.basename(p) for p in before if digest(p) != before[p]]
    obs.check(not changed, "input-modified", lambda: f"{told}; changed {changed}")
    obs.check(listing(tmp + "/in") == names, "input-directory", lambda: f"{told}; files {sorted(set(listing(tmp + '/in')) ^ set(names))}")
    if d == "full":  # HDF5 cannot close a file it cannot flush
        fds = [f for f in fds if not f.startswith(("/out/", "/scratch/"))]
    if k == "mwrpy":  # temporary files of the retrieval library
        fds = [f for f in fds if not f.endswith("(deleted)")]
    if spec["fmt"] == "rpg":
        fds = [f for f in fds if ".lv1" not in f.lower()]
    obs.check(not fds, "left-open" + ("-after-error" if failed else ""), lambda: f"{told}; open {fds}")
    obs.check(not scratch and not cwd, "temporary-files", lambda: f"{told}; left {scratch + cwd}")
    if failed:
        obs.n("leftovers")
        if d != "full":
            extra = [x for x in listing(tmp + "/out") if not (existing and x == "/out.nc")]
            obs.check(not extra, "partial-output", lambda: f"{told}; left {extra}")
            if existing:
                ok = (old,) if d in ("missing", "empty", "garbage", "truncated") else (old, "FileNotFoundError")
                obs.check(digest(out) in ok, "existing-output", lambda: f"{told}; the earlier output file changed")
    else:
        obs.check(os.path.isfile(out) and r[1], "no-output", lambda: f"{told} without a file")
    if d == "intact":
        obs.check(not failed, "intact-failed", lambda: told)
    if d in ("unwritable", "full"):
        obs.check(failed, "write-error-hidden", lambda: told)
    elif d in ("missing", "empty") and not (d == "empty" and len(job.inputs) > 1 and k in ("nc", "text")) and not (d == "missing" and k == "nc" and len(job.inputs) > 1):
        obs.check(failed, "no-error", lambda: told)
    elif d in ("garbage", "truncated", "variable") and k in BINARY and (k != "nc" or (len(job.inputs) == 1 and netcdf(spec["fmt"]))) and not (d == "truncated" and classic(path)):
        obs.check(failed, "no-error", lambda: told)
    if d == "flagged" or d == "site" and what in ("name", "coefficientLinks"):
        obs.check(failed, "no-error", lambda: told)
    if d == "masked" and not failed:
        obs.n("masked_output")
        v = {"Zh": "Z"}.get(what, what)
        if v in r[2]:
            obs.check(r[2][v] == 0, "made-up", lambda: f"{told}; {r[2][v]} values of {v}")
    obs.sig = f"{k}:{spec['fmt']}:{d}:{spec['seed']}"
    obs.sample = {"step": label, "outcome": r[1] if failed else "file"}
    return obs


def classic(path):
    with open(path, "rb") as f:
        return f.read(3) == b"CDF"  # the library pads truncated files of this format


def netcdf(name):
    from .. import ncfmt
    return name in ncfmt.ALL


def outcome(job, out, d):
    """outcome without keeping the exception (and its frames) alive"""
    import cloudnetpy.exceptions  # noqa: F401
    try:
        job.run(out)
    except Exception as e:  # noqa: BLE001
        r = ("error", type(e).__name__, str(e))
    else:
        r = None
    if r is not None:
        return r
    valid = {}
    ok = True
    if d != "full":
        with netCDF4.Dataset(out) as nc:
            for k, v in nc.variables.items():
                valid[k] = int(np.ma.count(v[:]))
            ok = bool(nc.variables) and "file_uuid" in nc.ncattrs()
    return ("file", ok, valid)
