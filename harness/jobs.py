"""Processing steps of all kinds as ready-to-run jobs (inputs written, callable prepared)."""
import datetime
import os
import re

import netCDF4
import numpy as np

from . import catgen, gen, l3gen, mie, mwr, nccase, textfmt
from . import textconv as tc

PRODUCTS = ("classification", "iwc", "lwc", "der", "ier", "drizzle")
MWRPY = ("single", "multi", "lhumpro")
L3 = ("cf", "iwc", "lwc")
TEXT = tuple(sorted(textfmt.ALL))
NC = tuple(nccase.NAMES)
KINDS = (*(("text", f) for f in TEXT), *(("nc", f) for f in NC), *(("product", p) for p in PRODUCTS), *(("l3", p) for p in L3),
         ("categorize", "full"), ("categorize", "bare"), ("epsilon", "radar"), ("epsilon", "lidar"),
         *(("mwrpy", p) for p in MWRPY))


class Job:
    def __init__(self, kind, name, run, inputs, optional=()):
        self.kind, self.name, self.run, self.inputs, self.optional = kind, name, run, inputs, optional

    def __repr__(self):
        return f"{self.kind}:{self.name}"


def warm():
    """import everything the jobs use, without calling it"""
    import cloudnetpy.categorize  # noqa: F401
    import cloudnetpy.instruments  # noqa: F401
    import cloudnetpy.instruments.weather_radar  # noqa: F401
    import cloudnetpy.model_evaluation.products.product_resampling  # noqa: F401
    import cloudnetpy.products  # noqa: F401
    import cloudnetpy.products.mwr_tools  # noqa: F401


def prepare(rng, kind, name, d, date=None):
    os.makedirs(d, exist_ok=True)
    day = date or datetime.date(2025, int(rng.integers(1, 13)), int(rng.integers(2, 28)))
    return globals()["prep_" + kind](rng, name, str(d), day)


def _tree(x):
    if isinstance(x, (list, tuple)):
        return [p for y in x for p in _tree(y)]
    x = str(x)
    if os.path.isdir(x):
        return sorted(os.path.join(r, f) for r, _, fs in os.walk(x) for f in fs)
    return [x]


def prep_text(rng, name, d, day):
    fmt = textfmt.ALL[name]()
    while True:
        recs = [fmt.new(rng, t - fmt.offset()) for t in tc.times(rng, day, int(rng.integers(max(6, fmt.min_records), 16)), 600)]
        if name != "fd12p" or not all(tc.all_missing(fmt, r) for r in recs):
            break
    files = [fmt.write(d + "/raw", recs)]
    dated = day.isoformat() if rng.random() < .5 else None
    job = Job("text", name, lambda out, uuid=None: fmt.run(files, out, date=dated, uuid=uuid), files)
    job.fmt = fmt
    return job


def prep_nc(rng, name, d, day):
    while True:
        n = int(rng.integers(4, 14))
        fmt = nccase.make(rng, name, n)
        recs = [fmt.new(rng, t) for t in tc.times(rng, day, n, 60, fmt.res)]
        if not nccase.no_data(fmt, recs):
            break
    arg = fmt.files(d + "/in", [[r] for r in recs] if getattr(fmt, "one_per_file", False) else fmt.regroup([recs]))
    dated = day.isoformat() if rng.random() < .5 else None
    job = Job("nc", name, lambda out, uuid=None: fmt.run(arg, out, date=dated, uuid=uuid), _tree(arg))
    job.fmt = fmt
    return job


def prep_product(rng, name, d, day):
    from cloudnetpy import products
    while "lwp" not in (F := catgen.make(rng, "layered")) and name in ("lwc", "der"):
        pass
    cat = catgen.write(d + "/categorize.nc", F)
    f = getattr(products, "generate_" + name)
    table = d + "_table"
    os.makedirs(table, exist_ok=True)
    mie.write(table + "/synthetic_mie.nc")

    def run(out, uuid=None):
        with mie.redirected(table):
            return f(cat, out, uuid=uuid)
    return Job("product", name, run, [cat])


def prep_l3(rng, name, d, day):
    from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product as process
    M = l3gen.model(rng, nt=9)
    mod, ob = l3gen.write_model(d + "/20230614_site_ecmwf.nc", M), l3gen.write_obs(d + "/20230614_site_obs.nc", l3gen.observations(rng, name, 6000.0))
    return Job("l3", name, lambda out, uuid=None: process("ecmwf", name, mod, ob, out, uuid=uuid, overwrite=True), [mod, ob])


def prep_categorize(rng, name, d, day):
    from cloudnetpy.categorize import generate_categorize
    S = gen.scene(rng, dur=.4, ng=45)
    files = gen.write_scene(S, d)
    if name == "bare":
        for k in ("mwr", "disdrometer"):
            files.pop(k, None)
    elif "mwr" in files and rng.random() < .4:
        gen.write_mwr(files["mwr"], S["mwr"], S["date"])
    return Job("categorize", name, lambda out, uuid=None: generate_categorize(dict(files), out, uuid=uuid), list(files.values()))


def prep_mwrpy(rng, name, d, day):
    path = mwr.level1c(rng, d, day, scan=name == "multi")
    offset = (0.01, 0.02) if name != "multi" and rng.random() < .3 else None
    return Job("mwrpy", name, lambda out, uuid=None: mwr.generate(name, path, out, uuid=uuid, **({"lwp_offset": offset} if offset else {}))[0], [path])


def prep_epsilon(rng, name, d, day):
    from cloudnetpy import products
    files = (epsilon_radar_files if name == "radar" else epsilon_lidar_files)(rng, d)
    f = products.generate_epsilon_from_radar if name == "radar" else products.generate_epsilon_from_lidar
    return Job("epsilon", name, lambda out, uuid=None: f(*files, out, uuid=uuid), list(files))


def epsilon_radar_files(rng, d):
    n, nh = 200, 4
    t = 5 + np.arange(n) * 5 / 3600
    src, mod = d + "/radar.nc", d + "/model.nc"
    with gen._nc(src) as nc:
        gen._globals(nc, "radar", "METEK MIRA-35", gen.rand_uuid(rng), location="Mace Head")
        nc.createDimension("time", n)
        nc.createDimension("range", nh)
        gen.put(nc, "time", t, ("time",), "hours since 2023-06-14 00:00:00 +00:00", dtype="f8")
        gen.put(nc, "range", 300. + 100 * np.arange(nh), ("range",), "m")
        gen.put(nc, "height", 305. + 100 * np.arange(nh), ("range",), "m")
        gen.put(nc, "altitude", 5.0, (), "m")
        gen.put(nc, "latitude", 50.0, (), "degree_north")
        gen.put(nc, "longitude", 10.0, (), "degree_east")
        gen.put(nc, "v", np.cumsum(rng.normal(0, .2, (n, nh)), axis=0) * .3, ("time", "range"), "m s-1")
    with gen._nc(mod) as nc:
        gen._globals(nc, "model", "ECMWF IFS", gen.rand_uuid(rng))
        nc.createDimension("time", 25)
        nc.createDimension("level", 8)
        gen.put(nc, "time", np.arange(25.), ("time",), "hours since 2023-06-14 00:00:00 +00:00")
        for k, x, un in (("height", np.tile(np.linspace(10, 5000, 8), (25, 1)), "m"), ("uwind", rng.uniform(3, 9, (25, 8)), "m s-1"), ("vwind", rng.uniform(-9, 9, (25, 8)), "m s-1")):
            gen.put(nc, k, x, ("time", "level"), un, dtype="f8")
    return src, mod


def epsilon_lidar_files(rng, d):
    n, nh = 120, 4
    t = 7 + np.arange(n) * 5 / 3600
    src, win = d + "/stare.nc", d + "/wind.nc"
    for path, kind, dim in ((src, "doppler-lidar", "range"), (win, "doppler-lidar-wind", "height")):
        with gen._nc(path) as nc:
            gen._globals(nc, kind, "HALO Photonics StreamLine", gen.rand_uuid(rng), location="Juelich")
            nc.createDimension("time", None)
            nc.createDimension(dim, nh if dim == "range" else 6)
            v = nc.createVariable("time", "f8", ("time",))
            v.units, v.calendar = "hours since 2023-06-14 00:00:00 +00:00", "standard"
            if dim == "range":
                v[:] = t
                gen.put(nc, "range", 100. + 50 * np.arange(nh), ("range",), "m")
                gen.put(nc, "height", 110. + 50 * np.arange(nh), ("range",), "m", standard_name="height_above_mean_sea_level", long_name="Height above mean sea level")
                gen.put(nc, "v", np.cumsum(rng.normal(0, .2, (n, nh)), axis=0) * .3, ("time", "range"), "m s-1")
                gen.put(nc, "ray_accumulation_time", 1.0, (), "s")
                for k, x in (("latitude", 50.9), ("longitude", 6.4), ("altitude", 10.0)):
                    gen.put(nc, k, x, (), "m" if k == "altitude" else "degree")
            else:
                v[:] = np.arange(0, 24, .5)
                gen.put(nc, "height", np.linspace(50, 600, 6), ("height",), "m", dtype="f8")
                for k in ("uwind", "vwind"):
                    gen.put(nc, k, rng.uniform(3, 9, (48, 6)), ("time", "height"), "m s-1", dtype="f8")
    return src, win


# ------------------------------------------------------------------ comparing files
STAMP = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \+00:00")


def dump(path):
    """complete contents of a netCDF file; identifier and time of creation left out"""
    out = {}
    with netCDF4.Dataset(path) as nc:
        nc.set_auto_maskandscale(False)
        out["format"] = nc.data_model
        out["dims"] = [(k, len(v), v.isunlimited()) for k, v in nc.dimensions.items()]
        for k, v in nc.variables.items():
            x = np.asarray(v[:])
            out["var:" + k] = (str(x.dtype), v.dimensions, x.shape, x.tobytes() if x.dtype.kind != "O" else repr(x.tolist()), [(a, repr(v.getncattr(a))) for a in v.ncattrs()])
        for a in nc.ncattrs():
            x = nc.getncattr(a)
            if a == "file_uuid":
                x = "-"
            elif a == "history":
                x = STAMP.sub("-", x)
            out["att:" + a] = repr(x)
        out["order"] = list(nc.variables), nc.ncattrs()
    return out


def difference(a, b):
    """names of what differs, with a short description"""
    out = []
    for k in sorted({*a, *b}):
        if a.get(k) == b.get(k):
            continue
        if k.startswith("var:") and k in a and k in b:
            x, y = a[k], b[k]
            if x[:3] != y[:3]:
                out.append((k, f"{x[:3]} / {y[:3]}"))
            elif x[3] != y[3]:
                out.append((k, "data"))
            else:
                out.append((k, f"attributes {sorted(set(x[4]) ^ set(y[4]))}"))
        else:
            out.append((k, f"{str(a.get(k))[:150]} / {str(b.get(k))[:150]}"))
    return out


# ------------------------------------------------------------------ isolated execution
def in_fork(fn, timeout=200):
    """fn() in a forked child -> its (picklable) result; ("died", status) if the child does not answer"""
    import pickle
    import select
    import signal
    import sys
    import time
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(0)
            try:
                res = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                import traceback
                res = ("harness", repr(e) + traceback.format_exc())
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            sys.stdout.flush()
            os._exit(0)
    os.close(w)
    buf, end = [], time.time() + timeout
    try:
        while True:
            if not select.select([r], [], [], max(0, end - time.time()))[0]:
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    finally:
        os.close(r)
        if time.time() >= end:
            os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
    if not buf or time.time() >= end:
        return ("died", status)
    kind, val = pickle.loads(b"".join(buf))
    if kind == "harness":
        raise RuntimeError(val)
    return val


def outcome(job, out, uuid=None, scrub=()):
    """runs a job -> ("file", dump, returned) or ("error", type, text, frames of the code under test)"""
    import traceback
    try:
        ret = job.run(out, uuid)
    except Exception as e:  # noqa: BLE001
        text = str(e)
        for s in scrub:
            text = text.replace(str(s), "<dir>")
        fr = [f"{f.filename}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__) if "/cloudnetpy/" in f.filename]
        return ("error", type(e).__name__, text, fr[-1:] or ["?"])
    ret = ret[0] if isinstance(ret, tuple) else ret
    return ("file", dump(out), str(ret))


if __name__ == "__main__":  # kind name seed dir out -> pickled outcome on stdout
    import logging
    import pickle
    import sys
    logging.disable(50)
    kind, name, seed, d, out, res = sys.argv[1:7]
    job = prepare(np.random.default_rng(int(seed)), kind, name, d)
    with open(res, "wb") as f:
        pickle.dump(outcome(job, out, scrub=(d,)), f)
