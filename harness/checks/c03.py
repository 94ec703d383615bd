"""C03: the time and height axes of a categorize file."""
import os

import numpy as np
from numpy import ma

from .. import gen
from ..catmodel import GRID, Inputs
from ..runner import Obs
from . import c01, c02

ID, LEVEL = "C03", "exploration"
RULE = ("random scenes with long and short gaps in radar, lidar and model, moving platforms, and partly or fully "
        "disjoint coverage; expected bins recomputed from the inputs; non-trivial if bins were dropped because of a gap, or if the "
        "run had to fail for lack of overlap; distinct by the set of expected bins")
ASSUMPTIONS = ["bins whose only radar sample lies within 4 ms of an edge or whose lidar distance is within rounding of one minute may go either way"]
MIN = {"bins_expected": 800, "bins_dropped": 100, "runs_without_overlap": 3, "moving_rows": 300}


def cases(tier, seed):
    n = 180 if tier == "quick" else 800
    out = [{"seed": seed * 100000 + i, "v": i % 10} for i in range(n)]
    out += [{"seed": seed * 100000 + 70000 + i, "v": 20 + i % 4} for i in range(36 if tier == "quick" else 120)]
    return out


def cut(d, keys, keep):
    n = len(d["time"])
    for k, a in list(d.items()):
        if isinstance(a, np.ndarray) and a.ndim >= 1 and a.shape[0] == n and k not in ("range", "height"):
            d[k] = a[keep]


def run_case(spec, tmp):
    from cloudnetpy.categorize import generate_categorize
    from cloudnetpy.exceptions import ValidTimeStampError
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    v = spec["v"]
    o = {"moving": v % 2 == 1, "gaps": 3 if v < 10 else 0, "lgaps": 3 if v < 10 else 0}
    if v == 9:
        o["t0"] = 0.0
    S = gen.scene(rng, **{"moving_alt": spec["seed"] % 2 == 0, **o})
    R, L, M = S["radar"], S["lidar"], S["model"]
    if v == 2:  # sparse radar: empty bins regularly
        cut(R, (), np.sort(rng.choice(len(R["time"]), max(8, len(R["time"]) // 12), replace=False)))
        R["time"] = np.array(R["time"])
    if v == 4:
        R["time"] = R["time"] * 3600  # seconds
        L["time"] = L["time"] * 3600
    if v in (6, 7):
        T = {k: ma.array(M[k]) for k in ("temperature", "pressure", "rh", "q", "uwind", "vwind")}
        i0 = int(np.clip(np.argmin(np.abs(M["time"] - R["time"][-1])), 1, len(M["time"]) - 2))
        for k in T:
            T[k][i0] = ma.masked
        M.update(T)
    if v == 9:  # the first minutes of the day without lidar or with an empty one
        late = L["time"] < rng.choice([0.02, 0.06, 0.1])
        if spec["seed"] % 4 < 2:
            L["beta"][late] = ma.masked
        elif (~late).sum() > 4:
            cut(L, (), ~late)
    if v == 8:  # many completely empty lidar profiles
        e = rng.random(len(L["time"])) < 0.6
        L["beta"][e] = ma.masked
    if v in (20, 21):  # radar and lidar disjoint or touching in one or two bins
        t0 = L["time"][0]
        cutoff = t0 - rng.choice([0.03, 0.2]) if v == 20 else t0 + rng.choice([0.0, 0.004, 0.008, 0.0125])
        keep = R["time"] < cutoff
        if not keep.any():
            shift = 0.5
            L["time"] = np.minimum(L["time"] + shift, 23.99)
            L["time"] = np.unique(L["time"])
            n = len(L["time"])
            L["beta"] = L["beta"][:n]
            keep = R["time"] < L["time"][0] - 0.02
        if keep.sum() >= 1:
            cut(R, (), keep)
    if v == 22:  # one radar profile, or several within one bin
        b = np.floor(R["time"] * 120)
        cut(R, (), b == rng.choice(np.unique(b)))
    if v == 23:
        L["beta"][:] = ma.masked
    if len(R["time"]) < 2:
        R["time"] = np.concatenate([R["time"], R["time"] + 1e-4])
        for k, a in list(R.items()):
            if isinstance(a, np.ndarray) and a.ndim >= 1 and a.shape[0] == 1 and k not in ("prf",):
                R[k] = ma.concatenate([a, a]) if ma.isMA(a) else np.concatenate([a, a])
    files = gen.write_scene(S, tmp)
    out = f"{tmp}/out/cat.nc"
    os.makedirs(f"{tmp}/out")
    I = Inputs(files)
    must, may = I.expected_bins()
    obs.sig = f"{v}-{hash(tuple(sorted(must)))}-{len(I.height)}"
    obs.sample = {"seed": spec["seed"], "variant": v, "expected_bins": len(must), "radar_bins": len(set(I.bin.tolist()))}
    try:
        generate_categorize(files, out)
    except ValidTimeStampError:
        obs.n("runs_without_overlap")
        obs.check(len(must) < 2, "no-timestamps-raised-wrongly", f"{len(must)} bins have data")
        obs.check(not os.listdir(f"{tmp}/out"), "output-after-failure", str(os.listdir(f"{tmp}/out")))
        return obs
    obs.check(len(may) >= 2, "fewer-than-two-bins-accepted", f"{len(may)}")
    o, a = gen.read(out)
    x = np.array(o["time"], dtype="f8")
    kept = np.round(x * 120 - 0.5).astype(int)
    obs.check(bool(np.all(np.abs(x - GRID[np.clip(kept, 0, 2879)]) < 5e-6)), "time-off-grid", lambda: str(x[:3]))
    obs.check(bool(np.all(np.diff(x) > 0)), "time-not-increasing")
    got = set(kept.tolist())
    obs.n("bins_expected", len(must))
    obs.n("bins_dropped", len(set(I.bin.tolist())) - len(got))
    obs.check(must <= got, "bin-missing", lambda: f"{sorted(must - got)[:5]} missing of {len(must)}")
    obs.check(got <= may, "bin-without-data", lambda: f"{sorted(got - may)[:5]} present without data in all sources")
    hh = np.array(o["height"], dtype="f8")
    obs.check(hh.shape == I.height.shape and bool(np.all(np.abs(hh - I.height) < 0.01)), "height-axis")
    obs.check(bool(np.all(np.diff(hh) > 0)), "height-not-increasing")
    import netCDF4
    with netCDF4.Dataset(out) as nc:
        for k, var in nc.variables.items():
            if "time" in var.dimensions:
                obs.check(var.dimensions[0] == "time" and var.shape[0] == len(x), f"shape-{k}")
                obs.n("time_vars")
        for k in ("Z", "v", "beta", "category_bits", "quality_bits", "Tw", "radar_gas_atten"):
            obs.check(k in nc.variables and nc[k].dimensions == ("time", "height"), f"dims-{k}",
                      lambda: f"{nc[k].dimensions if k in nc.variables else None}")
    # position = nearest radar timestamp
    for name in ("latitude", "longitude", "altitude"):
        src = I.d["radar"][name]
        g = np.atleast_1d(np.array(o[name], dtype="f8"))
        if src.size == 1:
            obs.check(bool(np.all(np.abs(g - float(src)) < 1e-4 * (1 + 9 * (name == "altitude")))), f"site-{name}", lambda: f"{g[:3]} {src}")
        else:
            if not obs.check(g.size == len(x), f"site-{name}-shape", str(g.shape)):
                continue
            s = np.array(src, dtype="f8")
            d = np.abs(I.t[:, None] - GRID[kept][None, :])
            near = d <= d.min(0) + 1e-9
            okv = (near & (np.abs(s[:, None] - g[None, :]) < 1e-4 * (1 + 9 * (name == "altitude")))).any(0)
            obs.n("moving_rows", len(x))
            obs.check(bool(okv.all()), f"site-{name}-row", lambda: f"row {np.where(~okv)[0][0]}")
    # every row refers to its own bin
    c01.compare(obs, files, out)
    c02.compare(obs, files, out, 0)
    obs.nontrivial = len(got) < len(set(I.bin.tolist()))
    return obs
