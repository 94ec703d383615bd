"""C02: lidar, LWP, disdrometer and model values on the categorize grid."""
import numpy as np
from numpy import ma

from .. import capture, gen
from ..catmodel import GRID, Inputs, hours, extrap
from ..runner import Obs

ID, LEVEL = "C02", "exploration"
RULE = ("random scenes through the categorize step with varying lidar/LWP/disdrometer sampling, gaps, empty profiles, "
        "quality flags, altitude offsets, km/m heights, missing model profiles and surface altitudes; non-trivial if at "
        "least 500 lidar pixels were compared; distinct by shapes and options")
ASSUMPTIONS = ["ties (two samples equally near) may resolve either way",
               "either diagonal of a model grid cell is an acceptable linear interpolation",
               "atmoslib (third-party) computes wet-bulb temperature correctly"]
MIN = {"beta_pixels": 50000, "lwp_values": 1000, "rain_values": 500, "tw_pixels": 50000, "particle_counts": 500, "weather_codes": 200, "starved_model": 5}


def cases(tier, seed):
    n = 216 if tier == "quick" else 900
    out = []
    for i in range(n):
        out.append({"seed": seed * 100000 + i, "v": i % 12})
    out += [{"seed": seed * 100000 + 50000 + i, "v": 0, "starved": i % 3} for i in range(18 if tier == "quick" else 30)]
    return out


def run_case(spec, tmp):
    from cloudnetpy.categorize import generate_categorize
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    v = spec["v"]
    o = {"mwr": v not in (3,), "disdro": v % 2 == 0}
    if v == 4:
        o.update(step=17.0, lstep=45.0)
    if v in (1, 7):
        o["mspread"] = 60.0
    if v in (0, 10):
        o.update(moving=True, moving_alt=True)
    S = gen.scene(rng, **o)
    L, M = S["lidar"], S["model"]
    if v in (1, 7):
        L["km"] = True
    if v == 2:
        L["no_height"], L["alt_km"] = True, spec["seed"] % 2 == 0
        L["alt"] = S["alt"]
        L["height"] = L["range"] + S["alt"]
    if v == 5:  # low-reaching lidar and coarse lidar gates
        k = max(4, len(L["range"]) // 3)
        for key in ("range", "height"):
            L[key] = L[key][:k]
        L["beta"] = L["beta"][:, :k]
    if v == 8:  # coarse lidar gates with > 100 m spacing
        L["range"] = L["range"][::30]
        L["height"] = L["height"][::30]
        L["beta"] = L["beta"][:, ::30].copy()
        if len(L["range"]) < 4:
            L["range"] = np.arange(1, 9) * 290.0
            L["height"] = L["range"] + L["alt"]
            L["beta"] = ma.array(rng.random((len(L["time"]), 8)).astype("f4") * 1e-6)
    if v in (6, 9):  # a missing model profile
        T = {k: ma.array(M[k]) for k in ("temperature", "pressure", "rh", "q", "uwind", "vwind")}
        i0 = int(np.argmin(np.abs(M["time"] - S["radar"]["time"][len(S["radar"]["time"]) // 2])))
        i0 = min(max(1, i0), len(M["time"]) - 2)
        for k in T:
            T[k][i0] = ma.masked
        M.update(T)
    if v == 10:
        M["sfc_height"] = np.full(len(M["time"]), S["alt"] + 35.0)
    if "mwr" in S and v == 11:
        q = np.zeros(len(S["mwr"]["time"]), "i4")
        q[rng.random(q.size) < 0.4] = int(rng.integers(1, 8))
        S["mwr"]["lwp_quality_flag"] = q
    if v == 9 and "mwr" in S:
        S["mwr"]["lwp"][:] = ma.masked
    if "mwr" in S and rng.random() < 0.3:  # unsorted duplicates at identical times
        m = S["mwr"]
        m["time"] = np.repeat(m["time"], 1)
    if "starved" in spec:
        return starved(obs, rng, S, spec["starved"], tmp)
    files = gen.write_scene(S, tmp)
    out = f"{tmp}/cat.nc"
    opts = {"temperature_offset": -1.5} if v == 7 else None
    from cloudnetpy.exceptions import ValidTimeStampError
    try:
        with capture.classification_inputs() as seen:
            generate_categorize(files, out, options=opts)
    except ValidTimeStampError:
        I = Inputs(files)
        must, may = I.expected_bins()
        obs.check(len(must) < 2, "unexpected-no-timestamps", f"{len(must)} bins expected")
        obs.nontrivial = False
        return obs
    compare(obs, files, out, (opts or {}).get("temperature_offset", 0))
    if "disdrometer" in files and len(seen) == 1 and isinstance(seen[0], dict):
        counts(obs, files, seen[0])
    at = gen.attrs(out, "Tw").get("temperature_correction_applied")
    obs.check(at is None if not opts else at is not None and float(at) == opts["temperature_offset"], "Tw-offset-attribute", lambda: f"{at} for {opts}")
    obs.sig = f"{v}-{len(L['time'])}-{len(L['range'])}-{len(S['radar']['time'])}-{M['height'].shape}"
    obs.nontrivial = obs.counts.get("beta_pixels", 0) > 500
    obs.sample = {"seed": spec["seed"], "variant": v, "beta_pixels": obs.counts.get("beta_pixels", 0)}
    return obs


def starved(obs, rng, S, k, tmp):
    """fewer than two usable model profiles cannot be interpolated in time; two can"""
    import os

    from cloudnetpy.categorize import generate_categorize
    from cloudnetpy.exceptions import ModelDataError
    M = S["model"]
    n = len(M["time"])
    mid = int(np.argmin(np.abs(M["time"] - np.median(S["radar"]["time"]))))
    keep = np.zeros(n, bool)
    keep[max(0, min(mid, n - 2)):][:k] = True
    for key in ("temperature", "pressure", "rh", "q", "uwind", "vwind"):
        M[key] = ma.array(M[key])
        M[key][~keep] = ma.masked
    files = gen.write_scene(S, tmp)
    out = f"{tmp}/cat.nc"
    obs.n("starved_model")
    try:
        generate_categorize(files, out)
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    if k < 2:
        obs.check(isinstance(err, ModelDataError), "starved-model-accepted", lambda: f"{k} valid model profiles of {n}: {err!r}")
        obs.check(not os.path.exists(out), "starved-model-output", "output written although it failed")
    obs.sig = f"starved-{k}-{S['radar']['time'].size}"
    return obs


def counts(obs, files, o):
    """particle counts and weather codes as the rain detection gets them"""
    d = Inputs(files).d["disdrometer"]
    t, x = hours(d["time"]), np.array(o["time"], float)
    if o["np"] is not None:
        y = ma.asanyarray(d["n_particles"])
        ev, amb = series(t, np.array(y.filled(0), dtype="f8"), ma.getmaskarray(y), x, 1 / 60)
        line(obs, "n_particles", ma.array(o["np"]), ev, amb, 1e-6)
        obs.n("particle_counts", (~np.isnan(ev)).sum())
    if o["wawa"] is not None and "synop_WaWa" in d:
        y = ma.asanyarray(d["synop_WaWa"])
        m = ma.getmaskarray(y)
        if not m.any():
            i, j, dm = nearest(t, x)
            g, gm = np.array(ma.filled(o["wawa"], -1), float), ma.getmaskarray(o["wawa"])
            yv = np.array(y.filled(0), float)
            far, sure = dm > 1 / 60, np.abs(dm - 1 / 60) > 1e-7
            bad = sure & np.where(far, ~gm, gm | ((g != yv[i]) & (g != yv[j])))
            obs.n("weather_codes", (~far).sum())
            obs.check(not bad.any(), "synop_WaWa", lambda: f"row {np.where(bad)[0][0]} given {g[bad][0]} expected {yv[i][bad][0]} or missing={far[bad][0]}")


def nearest(grid, x):
    """For each x the index set of the nearest grid points (handles ties): (i, j, dist)."""
    d = np.abs(grid[:, None] - x[None, :])
    i = d.argmin(0)
    dm = d.min(0)
    d2 = d.copy()
    d2[i, np.arange(x.size)] = np.inf
    j = d2.argmin(0)
    tie = np.abs(d2.min(0) - dm) <= 1e-5 * np.maximum(1e-9, np.abs(dm)) + 1e-9
    j = np.where(tie, j, i)
    return i, j, dm


def series(t, y, m, x, max_h):
    """Linear interpolation between valid samples; NaN where no valid sample within max_h; second
    output: ambiguous points."""
    t, y = t[~m], y[~m]
    if t.size == 0:
        return np.full(x.size, np.nan), np.zeros(x.size, bool)
    o = np.argsort(t, kind="stable")
    t, y = t[o], y[o]
    val = np.interp(x, t, y)
    d = np.abs(t[:, None] - x[None, :]).min(0)
    val = np.where(d > max_h, np.nan, val)
    return val, np.abs(d - max_h) < 1e-7


def compare(obs, files, out, offset):
    I = Inputs(files)
    o, _ = gen.read(out)
    x = np.array(o["time"], dtype="f8")
    kept = np.round(x * 120 - 0.5).astype(int)
    x = GRID[kept]
    # --- lidar
    L = I.d["lidar"]
    t, ok = I.lidar_valid()
    t = t[ok]
    B = L["beta"][ok]
    h = I.lidar_height()
    b = ma.array(o["beta"])
    gm = ma.getmaskarray(b)
    gv = np.array(b.filled(0), dtype="f8")
    bm, bv = ma.getmaskarray(B), np.array(B.filled(0), dtype="f8")
    i1, i2, dt = nearest(t, x)
    j1, j2, dh = nearest(h, I.height)
    accept = np.zeros(gm.shape, bool)
    out_t = (x < t[0] - 1e-9) | (x > t[-1] + 1e-9) | (dt > 1 / 60 + 1e-9)
    out_h = (I.height < h[0] - 1e-3) | (I.height > h[-1] + 1e-3) | (dh > 100 + 1e-3)
    amb_t = (np.abs(x - t[0]) < 1e-8) | (np.abs(x - t[-1]) < 1e-8) | (np.abs(dt - 1 / 60) < 1e-8)
    amb_h = (np.abs(I.height - h[0]) < 5e-3) | (np.abs(I.height - h[-1]) < 5e-3) | (np.abs(dh - 100) < 5e-3)
    for a in (i1, i2):
        for c in (j1, j2):
            em = bm[np.ix_(a, c)] | out_t[:, None] | out_h[None, :]
            ev = bv[np.ix_(a, c)]
            accept |= np.where(em, gm, ~gm & (np.abs(gv - ev) <= 1e-5 * np.abs(ev)))
    # heights stored as 4-byte floats make gates near the midpoint of two lidar gates ambiguous
    hs = np.sort(np.abs(h[:, None] - I.height[None, :]), 0)
    tie_h = (hs[1] - hs[0]) < 0.02 if len(h) > 1 else np.zeros(I.height.size, bool)
    accept |= amb_t[:, None] | (amb_h | tie_h)[None, :]
    obs.n("beta_pixels", gm.size)
    obs.n("beta_present", (~gm).sum())
    obs.n("beta_beyond_limits", (out_t.sum() * out_h.size + out_h.sum() * out_t.size))
    bad = ~accept
    obs.check(not bad.any(), "beta",
              lambda: f"{int(bad.sum())} pixels; first {np.argwhere(bad)[0].tolist()} file={b[tuple(np.argwhere(bad)[0])]} "
                      f"nearest dt={dt[np.argwhere(bad)[0][0]]*60:.3f} min dh={dh[np.argwhere(bad)[0][1]]:.1f} m")
    # --- LWP
    if "mwr" in files:
        d = I.d["mwr"]
        y = d["lwp"]
        m = ma.getmaskarray(y).copy()
        if "lwp_quality_flag" in d:
            m |= np.array(d["lwp_quality_flag"]) != 0
        yv = np.array(y.filled(0), dtype="f8")
        tm = hours(d["time"])
        for name, val in (("lwp", yv), ("lwp_error", np.sqrt((0.25 * yv) ** 2 + 0.02 ** 2))):
            if not obs.check(name in o, f"missing-{name}"):
                continue
            ev, amb = series(tm, val, m, x, 2 / 60)
            line(obs, name, o[name], ev, amb, 1e-5)
        obs.n("lwp_values", x.size)
    else:
        obs.check("lwp" not in o, "lwp-without-mwr")
    if "disdrometer" in files:
        d = I.d["disdrometer"]
        y = d["rainfall_rate"]
        ev, amb = series(hours(d["time"]), np.array(y.filled(0), dtype="f8"), ma.getmaskarray(y), x, 1 / 60)
        line(obs, "rainfall_rate", o["rainfall_rate"], ev, amb, 1e-10)
        obs.n("rain_values", x.size)
    # --- model on its own grid
    m = I.d["model"]
    tm, mh, F = I._nodes()
    good = ~ma.getmaskarray(m["temperature"]).all(1)
    obs.check(np.allclose(o["model_height"], mh, rtol=1e-5, atol=0.05), "model-height",
              lambda: f"{o['model_height'][:3]} {mh[:3]}")
    obs.check(np.allclose(o["model_time"], hours(m["time"])), "model-time")
    for k in ("temperature", "pressure", "q", "uwind", "vwind"):
        g = o[k]
        gmm = ma.getmaskarray(g)
        obs.check(bool(gmm[~good].all()) and not gmm[good].any(), f"model-mask-{k}")
        if g.shape == (good.size, mh.size):
            e = F[k]
            d_ = np.abs(np.array(g.filled(0), dtype="f8")[good] - e)
            tol = 1e-4 * np.abs(e) + 1e-4 * np.abs(e).max()
            obs.check(bool((d_ <= tol).all()), f"model-{k}", lambda: f"max dev {d_.max()}")
            obs.n("model_values", e.size)
    # --- wet bulb on the dense grid
    import atmoslib
    D = I.dense(x, ("temperature", "pressure", "q"))
    tw = o["Tw"]
    cands = [np.array(atmoslib.wet_bulb_temperature(D["temperature"][i], D["pressure"][i], D["q"][i])) + offset for i in (0, 1)]
    # a triangulation may also use neighbouring nodes: allow the spread once more
    tol = 0.1 + 2 * np.abs(cands[0] - cands[1])
    lo, hi = np.minimum(*cands) - tol, np.maximum(*cands) + tol
    g = np.array(tw.filled(np.nan), dtype="f8")
    known = ~ma.getmaskarray(tw)
    bad = known & ~((g >= lo) & (g <= hi))
    obs.n("tw_pixels", known.sum())
    obs.check(not bad.any(), "Tw", lambda: f"{int(bad.sum())} pixels first {np.argwhere(bad)[0].tolist()} file={g[bad][0]:.3f} "
              f"expected {lo[bad][0]:.3f}..{hi[bad][0]:.3f}")
    obs.check(bool(known.all()), "Tw-missing", lambda: f"{int((~known).sum())} missing Tw pixels")


def line(obs, name, got, ev, amb, atol):
    gm = ma.getmaskarray(got)
    em = np.isnan(ev)
    bad = (gm != em) & ~amb
    obs.check(not bad.any(), f"{name}-missing",
              lambda: f"{int(bad.sum())} values; first row {np.where(bad)[0][0]} file-missing={gm[bad][0]}")
    both = ~gm & ~em
    d = np.abs(np.array(got.filled(0), dtype="f8") - np.nan_to_num(ev))
    bad = both & (d > atol + 1e-4 * np.abs(np.nan_to_num(ev)))
    obs.n(f"{name}_missing", em.sum())
    obs.check(not bad.any(), f"{name}-value", lambda: f"row {np.where(bad)[0][0]} file={got[np.where(bad)[0][0]]} expected={ev[bad][0]}")
