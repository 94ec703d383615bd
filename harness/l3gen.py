"""Model, categorize and water content files for the level 3 processing."""
import numpy as np
from numpy import ma

from . import catgen, gen

CATS = catgen.CAT


def model(rng, **o):
    nt = o.get("nt", int(rng.choice([25, 9, 24, 5])))
    step = {25: 1.0, 24: 1.0, 9: 3.0, 5: 6.0}.get(nt, 1.0)
    nz = o.get("nz", int(rng.integers(6, 16)))
    t = np.arange(nt) * step
    base = np.cumsum(rng.uniform(30, 400, nz)) if rng.random() < .6 else np.cumsum(rng.uniform(100, 3500, nz))
    base = base + float(rng.choice([0, 10.0, 200.0]))
    h = base[None, :] * (1 + rng.uniform(-.02, .02, nt)[:, None])
    cut = np.any(h < 22000, axis=0)
    M = {"time": t, "height": h, "levels": int(cut.sum())}
    sh = h.shape
    M["cloud_fraction"] = np.where(rng.random(sh) < .4, 0, rng.random(sh) ** 2)
    M["temperature"] = 285 - .0062 * h + rng.normal(0, 2, sh)
    M["temperature"] = np.maximum(M["temperature"], 190)
    M["pressure"] = 101325 * np.exp(-h / 8000)
    for k in ("qi", "ql"):
        M[k] = np.where(rng.random(sh) < .3, 0, 10.0 ** rng.uniform(-9, -3.5, sh))
        if rng.random() < .3:
            M[k] = np.where(rng.random(sh) < .05, -1e-8, M[k])
    for k in ("qs", "qg"):
        if rng.random() < .4:
            M[k] = np.where(rng.random(sh) < .5, 0, 10.0 ** rng.uniform(-8, -4, sh))
    amp = float(rng.choice([3.0, 12.0, 40.0]))
    M["uwind"], M["vwind"] = rng.normal(0, amp, sh), rng.normal(0, amp, sh)
    M["res"] = float(rng.choice([9.0, 2.5, 40.0, 100.0]))
    M["sfc"] = None
    M["lat"], M["lon"] = 50.0, -20.0
    M["uuid"] = gen.rand_uuid(rng)
    M["missing"] = {}
    if rng.random() < .3:
        for k in ("cloud_fraction", "qi", "ql"):
            M["missing"][k] = rng.random(sh) < .1
    M["forecast_time"] = np.arange(nt) * step + 12.0
    return M


def write_model(path, M, name="ecmwf"):
    with gen._nc(path) as nc:
        gen._globals(nc, "model", "Integrated Forecast System (IFS)", M["uuid"], extra=M.get("attrs"))
        nc.createDimension("time", len(M["time"]))
        nc.createDimension("level", M["height"].shape[1])
        gen.put(nc, "time", M["time"], ("time",), "hours since 2023-06-14 00:00:00 +00:00", dtype="f8")
        gen.put(nc, "level", np.arange(M["height"].shape[1], dtype=float), ("level",), "1")
        gen.put(nc, "height", M["height"], ("time", "level"), "m", dtype="f8", long_name="Height above ground")
        gen.put(nc, "forecast_time", M["forecast_time"], ("time",), "hours")
        for k, u in (("cloud_fraction", "1"), ("temperature", "K"), ("pressure", "Pa"), ("qi", "1"), ("ql", "1"), ("qs", "1"), ("qg", "1"), ("uwind", "m s-1"), ("vwind", "m s-1")):
            if k in M:
                x = ma.array(M[k], mask=M["missing"].get(k, False))
                gen.put(nc, k, x, ("time", "level"), u, dtype="f8")
        gen.put(nc, "horizontal_resolution", M["res"] if M.get("scalar_res") else np.full(len(M["time"]), M["res"]), () if M.get("scalar_res") else ("time",), "km", dtype="f8")
        gen.put(nc, "latitude", M["lat"], (), "degree_north")
        gen.put(nc, "longitude", M["lon"], (), "degree_east")
        if M["sfc"] is not None:
            gen.put(nc, "sfc_height", M["sfc"], ("time",), "m", dtype="f8")
    return path


def observations(rng, product, top, **o):
    """times over the day with outages, heights above mean sea level up to about top"""
    alt = float(rng.choice([0.0, 12.0, 305.0, 1890.0]))
    n = int(rng.integers(150, 700))
    t = np.sort(rng.choice(2880, n, replace=False)) / 120 + 1 / 240
    for _ in range(int(rng.integers(0, 3))):  # outages
        a = rng.uniform(0, 24)
        t = t[(t < a) | (t > a + rng.uniform(.5, 8))]
    if len(t) < 20:
        t = (np.arange(200) * 14 + .5) / 120
    nh = int(rng.integers(20, 60))
    h = alt + np.cumsum(rng.uniform(.4, 1.6, nh)) * max(top, 500) / nh + 60
    t, h = t.astype("f4").astype(float), h.astype("f4").astype(float)
    sh = (len(t), nh)
    O = {"time": t, "height": h, "alt": alt, "product": product, "uuid": gen.rand_uuid(rng), "freq": float(rng.choice([35.5, 94.0]))}
    O["zsen"] = np.linspace(-60, -25, nh)
    if product == "cf":
        C = {k: np.zeros(sh, bool) for k in CATS}
        if rng.random() < .3:
            for k in CATS:
                C[k] = rng.random(sh) < rng.uniform(.05, .6)
            C["aerosol"] &= ~(C["droplet"] | C["falling"])
            C["insect"] &= ~(C["droplet"] | C["falling"])
        else:
            C["freezing"] = np.broadcast_to(h[None, :] > alt + rng.uniform(0, 3000), sh).copy()
            for k, m in (("falling", 8), ("droplet", 8), ("aerosol", 4), ("insect", 3)):
                C[k] = catgen.blobs(rng, *sh, m, (3, max(4, sh[0] // 3)), (2, max(3, nh // 2)))
            hyd = C["droplet"] | C["falling"]
            C["aerosol"] &= ~hyd
            C["insect"] &= ~hyd
        O["C"] = C
    else:
        x = 10.0 ** rng.uniform(-7, -3, sh)
        m = ~catgen.blobs(rng, *sh, 9, (3, max(4, sh[0] // 3)), (2, max(3, nh // 2)))
        m |= rng.random(sh) < .05
        O["x"] = ma.array(x.astype("f4").astype(float), mask=m)
        if product == "iwc":
            O["status"] = np.where(m, 0, rng.choice([1, 2, 3, 4, 5, 6, 7], sh, p=[.5, .1, .2, .05, .05, .05, .05]))
        if rng.random() < .2:
            O["x"][rng.random(sh) < .01] = np.nan
    return O


def write_obs(path, O):
    kind = "categorize" if O["product"] == "cf" else O["product"]
    with gen._nc(path) as nc:
        gen._globals(nc, kind, "RPG-FMCW-94", O["uuid"], extra=O.get("attrs"))
        nc.source_file_uuids = "a, b"
        nc.createDimension("time", len(O["time"]))
        nc.createDimension("height", len(O["height"]))
        gen.put(nc, "time", O["time"], ("time",), "hours since 2023-06-14 00:00:00 +00:00", dtype="f8")
        gen.put(nc, "height", O["height"], ("height",), "m")
        gen.put(nc, "altitude", np.full(len(O["time"]), O["alt"]) if O.get("alt1d") else O["alt"], ("time",) if O.get("alt1d") else (), "m")
        gen.put(nc, "latitude", 50.0, (), "degree_north")
        gen.put(nc, "longitude", -20.0, (), "degree_east")
        if O["product"] == "cf":
            gen.put(nc, "category_bits", catgen.pack(O["C"], CATS), ("time", "height"), "1", "i4")
            gen.put(nc, "quality_bits", np.zeros((len(O["time"]), len(O["height"])), int), ("time", "height"), "1", "i4")
            gen.put(nc, "radar_frequency", O["freq"], (), "GHz")
            gen.put(nc, "Z_sensitivity", O["zsen"], ("height",), "dBZ")
        else:
            gen.put(nc, O["product"], O["x"], ("time", "height"), "kg m-3")
            if "status" in O:
                gen.put(nc, "iwc_retrieval_status", O["status"], ("time", "height"), "1", "i4")
    return path
