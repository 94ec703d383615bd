"""Synthetic Mie look-up table with the layout of mie_lu_tables.nc (the real one is not in the repository)."""
import contextlib
import os
import sys

import netCDF4
import numpy as np

ND, NMU = 60, 12


def tables():
    D = np.geomspace(4e-6, 9e-4, ND)
    mu = np.linspace(-0.9, 10, NMU)
    m, d = mu[:, None], D[None, :]
    x = np.log(d / 4e-6)
    t = {"lu_medianD": D, "lu_u": mu, "lu_k": 14 + 3 * np.tanh(x - 2) + 0.3 * m + 0.2 * np.sin(3 * x),
         "lu_LWF": 1 + 0.02 * m + 0.1 * np.cos(x), "lu_termv": 0.02 + 4000 * D}
    for band, s in (("35", 1.0), ("94", 1.4)):
        t[f"lu_width_{band}"] = s * 900 * d / (1.5 + 0.4 * (m + 1)) + 0.002 * (NMU - np.arange(NMU))[:, None]
        t[f"lu_mie_ray_{band}"] = 1 - 0.05 * s * (d / 5e-4) ** 2 - 0.002 * m
        t[f"lu_v_{band}"] = -(0.05 + 4200 * d * (1 + 0.01 * m)) / s
    return {k: np.asarray(v, "f4").astype("f8") for k, v in t.items()}


def lut(band):
    t = tables()
    return {"Do": t["lu_medianD"], "mu": t["lu_u"], "S": t["lu_k"], "lwf": t["lu_LWF"], "termv": t["lu_termv"],
            "width": t[f"lu_width_{band}"], "ray": t[f"lu_mie_ray_{band}"], "v": t[f"lu_v_{band}"]}


def write(path):
    with netCDF4.Dataset(path, "w") as nc:
        nc.createDimension("d", ND)
        nc.createDimension("u", NMU)
        for k, v in tables().items():
            dims = ("u", "d") if v.ndim == 2 else (("u",) if k == "lu_u" else ("d",))
            nc.createVariable(k, "f8", dims)[:] = v
    return path


class _Redirect:
    """Stands for the netCDF4 module; opening .../mie_lu_tables.nc yields the synthetic table."""

    def __init__(self, module, fake):
        self._module, self._fake = module, fake

    def __getattr__(self, name):
        return getattr(self._module, name)

    def Dataset(self, filename, *a, **k):
        if os.path.basename(str(filename)) == "mie_lu_tables.nc":
            filename = self._fake
        return self._module.Dataset(filename, *a, **k)


@contextlib.contextmanager
def redirected(tmp):
    from cloudnetpy.products import drizzle_tools
    fake = os.path.join(str(tmp), "synthetic_mie.nc")
    if not os.path.exists(fake):
        write(fake)
    saved = {}
    mods = [m for n, m in sys.modules.items() if n.startswith("cloudnetpy.products") and getattr(m, "netCDF4", None) is netCDF4]
    cls = [m for m in vars(drizzle_tools).values() if isinstance(m, type) and "_get_mie_file" in vars(m)]
    for c in cls:
        saved[c] = vars(c)["_get_mie_file"]
        c._get_mie_file = staticmethod(lambda *a: fake)
    for m in mods:
        m.netCDF4 = _Redirect(netCDF4, fake)
    try:
        yield
    finally:
        for m in mods:
            m.netCDF4 = netCDF4
        for c, o in saved.items():
            c._get_mie_file = o
