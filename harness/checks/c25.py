"""C25: observations downsampled to the model grid and model fields of level 3 files."""
import hashlib
import os

import numpy as np
from numpy import ma

from .. import gen, l3gen
from ..runner import Obs

ID, LEVEL = "C25", "exploration"
RULE = ('model grids (hourly to 6-hourly, fine and coarse levels above and below the altitude limit, terrain different from the site, missing values, calm and strong wind) with categorize, '
        'ice and liquid water content files (outages, missing and unreliable pixels, any altitude); every cell of the level 3 file recomputed from the pixels inside its box; existing output files; distinct by product and seed')
ASSUMPTIONS = ['model times are evenly spaced and heights increase with level', 'a pixel within a second of a box edge (or 1 cm in height) makes its cell not comparable']
MIN = {'files': 350, 'cells': 20000, 'filled': 8000, 'empty': 10000, 'adv_cells': 20000, 'adv_filled': 6000, 'partial': 4000, 'unreliable': 40000, 'nan': 15, 'model_cells': 40000,
       'above_limit': 15, 'terrain': 50, 'altitude': 70, 'overwrite': 50, 'refused': 150, 'cirrus': 40, 'calm': 20, 'wind_missing': 20, 'no_wind_cells': 300}
RD = 287.058  # documented gas constant of dry air


def cases(tier, seed):
    n = 420 if tier == "quick" else 1500
    return [{"seed": seed * 100000 + i * 10 + j, "p": p} for i in range(n) for j, p in enumerate(("cf", "iwc", "lwc"))]


def digest(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def run_case(spec, tmp):
    from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product as process
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    p = spec["p"]
    M = l3gen.model(rng)
    O = l3gen.observations(rng, p, float(M["height"][0, min(M["levels"], M["height"].shape[1]) - 1]) * rng.uniform(.3, 1.2))
    if rng.random() < .4:
        M["sfc"] = np.full(len(M["time"]), O["alt"] + rng.uniform(-300, 300)) + (rng.uniform(-5, 5, len(M["time"])) if rng.random() < .3 else 0)
        obs.n("terrain")
    if rng.random() < .2:
        i = rng.random(M["uwind"].shape) < .2
        M["uwind"][i] = M["vwind"][i] = float(rng.choice([.01, 0.0]))  # weak or no wind: at most an hour
        obs.n("calm")
    if rng.random() < .25:
        M["missing"]["uwind"] = M["missing"]["vwind"] = rng.random(M["uwind"].shape) < .1
        obs.n("wind_missing")
    O["alt1d"] = rng.random() < .2
    M["scalar_res"] = bool(rng.random() < .5)
    if O["alt"] > 100:
        obs.n("altitude")
    mf, of = l3gen.write_model(f"{tmp}/20230614_x_ecmwf.nc", M), l3gen.write_obs(f"{tmp}/obs.nc", O)
    before = digest(mf), digest(of)
    out = f"{tmp}/l3.nc"
    uid = gen.rand_uuid(rng)
    try:
        ret = process("ecmwf", p, mf, of, out, uuid=str(uid))
    except ValueError as e:
        if "ice" in str(e):
            raise
        raise
    a, attrs = gen.read(out)
    obs.n("files")
    judge(obs, p, M, O, a)
    obs.check(attrs.get("cloudnet_file_type") == f"l3-{p}" and attrs["file_uuid"] == str(uid) == str(ret), "identity", lambda: f"{attrs.get('cloudnet_file_type')} {attrs.get('file_uuid')} {ret} {uid}")
    obs.check((attrs["year"], attrs["month"], attrs["day"]) == gen.DATE, "date", lambda: f"{attrs['year']}-{attrs['month']}-{attrs['day']}")
    # existing files
    old = digest(out)
    try:
        process("ecmwf", p, mf, of, out)
        obs.bad("existing-overwritten", "existing file was processed without overwrite")
    except FileExistsError:
        pass
    obs.n("refused")
    obs.check(digest(out) == old, "existing-changed", lambda: "existing file changed although not asked to overwrite")
    if rng.random() < .4:
        process("ecmwf", p, mf, of, out, overwrite=True)
        b, _ = gen.read(out)
        obs.n("overwrite")
        obs.check(same(a, b), "overwrite-differs", lambda: "file recreated from the same input differs")
    obs.check((digest(mf), digest(of)) == before, "input-modified", lambda: "an input file was modified")
    obs.sig = f"{p}-{spec['seed']}"
    obs.sample = {"product": p, "observed": dict(obs.counts)}
    return obs


def same(a, b):
    return a.keys() == b.keys() and all(a[k].shape == b[k].shape and np.array_equal(ma.getmaskarray(a[k]), ma.getmaskarray(b[k])) and np.array_equal(a[k].filled(0), b[k].filled(0)) for k in a)


def edges_t(t):
    d = t[1] - t[0]
    return np.concatenate([[t[0] - d / 2], (t[1:] + t[:-1]) / 2, [t[-1] + d / 2]])


def edges_h(h):
    return np.concatenate([[h[0] - (h[1] - h[0])], (h[1:] + h[:-1]) / 2, [h[-1] + h[-1] - h[-2]]])


def judge(obs, p, M, O, a):
    n = M["levels"]
    h = M["height"][:, :n]
    if n < M["height"].shape[1]:
        obs.n("above_limit")
    t = M["time"]
    f4 = lambda x: np.asarray(x, "f4").astype(float)  # noqa: E731
    # model fields
    fields(obs, p, M, a, n)
    obs.check(np.allclose(np.asarray(a["time"], float), t, atol=1e-6), "time", lambda: f"{a['time']}")
    # pixels
    if p == "cf":
        C = O["C"]
        cloud = C["droplet"] | (C["falling"] & C["freezing"])
        x = ma.array(cloud.astype(float))
    else:
        x = O["x"].copy()
        bad = np.isnan(x.filled(0))
        if bad.any():
            obs.n("nan")
            x[bad] = ma.masked
        if p == "iwc":
            un = ~np.isin(O["status"], (1, 3)) & ~ma.getmaskarray(x)
            obs.n("unreliable", int(un.sum()))
            x[un] = ma.masked
    base = O["alt"] if M["sfc"] is None else M["sfc"][:, None]
    H = h + base
    T = edges_t(t)
    ot, oh = O["time"], O["height"]
    wind = np.hypot(M["uwind"], M["vwind"])[:, :n]
    adv = np.minimum(M["res"] * 1000 / np.maximum(wind, 1e-12) / 3600, 1.0)
    names = {"cf": ("cf_V", "cf_A")}.get(p, (p,))
    for k in names:
        for s in ("", "_adv"):
            if not obs.check(k + s in a and a[k + s].shape == h.shape, "missing-variable", lambda k=k, s=s: f"{k + s} of shape {h.shape} not in file"):
                return
    X, m = x.filled(0), ma.getmaskarray(x)
    for i in range(len(t)):
        E = edges_h(H[i])
        tw = (ot >= T[i]) & (ot < T[i + 1])
        edge_t = np.any(np.abs(ot - T[i]) < 3e-4) or np.any(np.abs(ot - T[i + 1]) < 3e-4)
        for j in range(n):
            hw = (oh >= E[j]) & (oh < E[j + 1])
            edge_h = np.any(np.abs(oh - E[j]) < .01) or np.any(np.abs(oh - E[j + 1]) < .01)
            lo, hi = t[i] - adv[i, j] / 2, t[i] + adv[i, j] / 2
            aw = (ot >= lo) & (ot < hi)
            edge_a = np.any(np.abs(ot - lo) < 3e-4) or np.any(np.abs(ot - hi) < 3e-4)
            if M["missing"].get("uwind") is not None and M["missing"]["uwind"][i, j]:
                aw, edge_a = np.zeros(ot.shape, bool), False  # unknown advection time
                obs.n("no_wind_cells")
            for s, w, edge in (("", tw, edge_t), ("_adv", aw, edge_a)):
                if edge or edge_h:
                    obs.n("borderline")
                    continue
                cell(obs, p, names, s, a, i, j, X[np.ix_(w, hw)], m[np.ix_(w, hw)])


def cell(obs, p, names, s, a, i, j, x, m):
    obs.n("adv_cells" if s else "cells")
    good = ~m
    if good.any():
        obs.n("adv_filled" if s else "filled")
        mean = x[good].mean()
        if 0 < mean < 1 and p == "cf":
            obs.n("partial")
    else:
        mean = None
        obs.n("adv_empty" if s else "empty")
    for k in names:
        v = a[k + s][i, j]
        key = f"{k}{s}"
        if mean is None:
            obs.check(v is ma.masked, f"{p}-not-missing", lambda: f"{key}[{i},{j}] = {v} but no valid observation is inside the box")
            continue
        want = mean if k != "cf_A" else float(np.mean((x * good).sum(axis=1)[good.any(axis=1)] > 0))
        if not obs.check(v is not ma.masked, f"{p}-missing", lambda: f"{key}[{i},{j}] missing, {int(good.sum())} observations give {want}"):
            continue
        obs.check(abs(float(v) - want) <= 1e-5 * abs(want) + 1e-12, f"{key}-value", lambda: f"{key}[{i},{j}] = {float(v)}, the {int(good.sum())} observations of the box give {want}")
        if p == "cf":
            obs.check(0 <= float(v) <= 1, "cf-range", lambda: f"{key}[{i},{j}] = {v}")
    if p == "cf" and mean is not None and a["cf_V" + s][i, j] is not ma.masked and a["cf_A" + s][i, j] is not ma.masked:
        obs.check(float(a["cf_A" + s][i, j]) >= float(a["cf_V" + s][i, j]) - 1e-6, "cf-order", lambda: f"cloud fraction by area {a['cf_A' + s][i, j]} below that by volume {a['cf_V' + s][i, j]}")


def field(obs, key, got, want, missing, near):
    obs.n("model_cells", int(want.size))
    g = ma.asarray(got)
    if not obs.check(g.shape == want.shape, "model-shape", lambda: f"{key} {g.shape}, expected {want.shape}"):
        return
    gm = ma.getmaskarray(g)
    ok = near | ((gm == missing) & (gm | (np.abs(g.filled(0) - want) <= 2e-5 * np.abs(want))))
    obs.check(bool(ok.all()), "model-" + key, lambda: f"{key}: {int((~ok).sum())} cells differ, e.g. {g[~ok][0]} for {want[~ok][0]} (missing {missing[~ok][0]})")


def fields(obs, p, M, a, n):
    c = slice(None), slice(0, n)
    none = np.zeros(M["height"][c].shape, bool)
    field(obs, "height", a["model_height"], M["height"][c], none, none)
    if "model_forecast_time" in a:
        obs.check(np.allclose(np.asarray(a["model_forecast_time"], float), M["forecast_time"], atol=1e-4), "model-forecast-time", lambda: f"{a['model_forecast_time']}")
    else:
        obs.bad("model-forecast-time", "model_forecast_time is not in the file")
    if p == "cf":
        w, lim = M["cloud_fraction"][c], .05
        miss = M["missing"].get("cloud_fraction", np.zeros(M["height"].shape, bool))[c]
    else:
        q = M["qi" if p == "iwc" else "ql"].copy()
        miss = M["missing"].get("qi" if p == "iwc" else "ql", np.zeros(M["height"].shape, bool))[c]
        if p == "iwc":
            for k in ("qs", "qg"):
                if k in M:
                    q = q + M[k]
        w, lim = (q * M["pressure"] / (RD * M["temperature"]))[c], 1e-7 if p == "iwc" else 1e-5
    field(obs, p, a[f"model_{p}"], w, miss | (w < lim), ~miss & (np.abs(w / lim - 1) < 1e-4))
    if p == "cf" and "model_cf_cirrus" in a:
        obs.n("cirrus")
        x, y = a["model_cf_cirrus"], a["model_cf"]
        xm, ym = ma.getmaskarray(x), ma.getmaskarray(y)
        obs.check(not np.any(~xm & ym), "cirrus-alone", lambda: "cirrus-filtered cloud fraction where the model has no cloud")
        b = ~xm & ~ym
        obs.check(bool(np.all(x.filled(0)[b] <= y.filled(0)[b] * (1 + 1e-5)) and np.all(x.filled(0)[b] >= .05 * (1 - 1e-5))), "cirrus-range", lambda: "cirrus-filtered cloud fraction above the model cloud fraction or below 0.05")
