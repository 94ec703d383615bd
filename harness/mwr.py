"""Level 1c and level 2 files of microwave radiometers: raw files, retrieval coefficients, stand-in for the download."""
import contextlib
import datetime
import glob
import inspect
import os

import netCDF4
import numpy as np
import requests

from . import binfmt, gen
from . import textconv as tc

SCAN = (90.0, 30.0, 19.2, 14.4, 11.4, 8.4, 6.6, 5.4, 4.8, 4.2)
SITES = ("hyytiala", "lindenberg", "palaiseau")


def coefficient_files(site):
    import mwrpy
    return sorted(glob.glob(os.path.dirname(mwrpy.__file__) + f"/site_config/{site}/coefficients/*.ret"))


class Served:
    """web server of coefficient files"""

    def __init__(self):
        self.asked = []
        self.content = {os.path.basename(p): p for s in SITES for p in coefficient_files(s)}

    def get(self, url, *args, **kwargs):
        url = str(url)
        self.asked.append(url)
        with open(self.content[url.split("/")[-1]], "rb") as f:
            data = f.read()
        return type("Response", (), {"content": data, "status_code": 200, "ok": True, "raise_for_status": lambda self: None})()


@contextlib.contextmanager
def served():
    s, real = Served(), requests.get
    requests.get = s.get
    try:
        yield s
    finally:
        requests.get = real


def raw(rng, d, day, scan=False, n=None):
    """raw files -> (format, records, argument of the converter)"""
    fmt = binfmt.HatproL1c(rng)
    fmt.scan = False
    site = str(rng.choice(SITES))
    files = coefficient_files(site)
    order = [files[i] for i in rng.permutation(len(files))] if rng.random() < .5 else files
    fmt.site["coefficientLinks"] = [f"https://example.org/{site}/{os.path.basename(p)}" for p in order]
    step = int(rng.choice([2, 10, 30]))
    n = n or int(rng.integers(4, 30))
    if scan:
        fmt.version, fmt.tol = 2, {}
        n = len(SCAN) * int(rng.integers(4, 7)) + 5
    recs = [fmt.new(rng, t) for t in tc.times(rng, day, n, step, fmt.res)]
    if scan:
        k0 = int(rng.integers(0, 5))
        for i, r in enumerate(recs):
            r["el"] = SCAN[(i - k0) % len(SCAN)] if i >= k0 else 90.0
    return fmt, recs, fmt.files(d + "/in", [recs])


def level1c(rng, d, day, scan=False, pid=True, n=None):
    """level 1c file -> path"""
    os.makedirs(d, exist_ok=True)
    fmt, recs, arg = raw(rng, d, day, scan, n)
    path = d + "/l1c.nc"
    fmt.run(arg, path, date=day.isoformat(), uuid=gen.rand_uuid(rng))
    with netCDF4.Dataset(path, "a") as nc:
        nc.history = f"{day} 12:34:56 +00:00 - mwr-l1c file created"
        if pid:
            nc.instrument_pid = "https://hdl.handle.net/21.12132/3.%08x" % int(rng.integers(2**31))
        if scan:
            flag = nc["pointing_flag"]
            flag[:] = np.where(np.arange(len(flag)) >= 5, 1, 0)
    return path


def reference(product, path, out, coeffs, lwp_offset=(None, None)):
    """what mwrpy retrieves"""
    from mwrpy.level2 import lev2_collocated as lev2
    f = getattr(lev2, "generate_lev2_" + product)
    kw = {"mwr_l1c_file": path, "output_file": out, "coeff_files": coeffs}
    if product != "multi":
        kw["lwp_offset"] = lwp_offset
    if "site" in inspect.signature(f).parameters:
        kw["site"] = None
    f(**kw)


def generate(product, *args, **kwargs):
    from cloudnetpy.products import mwr_tools
    with served() as s:
        return getattr(mwr_tools, "generate_mwr_" + product)(*args, **kwargs), s


def flag_everything(path):
    with netCDF4.Dataset(path, "a") as nc:
        nc["quality_flag"][:] = 8


def receivers_off(files):
    """housekeeping files of a radiometer with both receivers out of order"""
    for p in files:
        if p.lower().endswith(".hkd"):
            with open(p, "rb") as f:
                x = f.read()
            n, flags = np.frombuffer(x[:16], "<i4")[[1, 3]]
            size = (len(x) - 16) // n
            rows = np.frombuffer(x[16:], np.uint8).reshape(n, size).copy()
            rows[:, -4:] = 0
            with open(p, "wb") as f:
                f.write(x[:16] + rows.tobytes())


DAY = datetime.date(2025, 6, 14)
