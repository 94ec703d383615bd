"""C27: turbulence dissipation rates of the radar and Doppler lidar products."""
import datetime

import netCDF4
import numpy as np
from numpy import ma
from scipy.interpolate import CubicSpline

from .. import gen
from ..runner import Obs

ID, LEVEL = "C27", "exploration"
RULE = ('radar and Doppler lidar velocity fields (turbulent, weak, constant, oscillating) with gaps, outages, irregular sampling and moving sites, model and lidar winds with missing values; '
        'every dissipation rate compared with a direct evaluation of the published relations over the averaging window, and between runs with velocities scaled, perturbed outside the window or with a gap added; distinct by kind and seed')
ASSUMPTIONS = ['radar sampling interval is a whole number of seconds', 'pixels within rounding of an acceptance limit are not compared']
MIN = {'radar_files': 200, 'lidar_files': 200, 'radar_retrieved': 4000, 'radar_pixels': 12000, 'radar_missing': 7000, 'lidar_retrieved': 35000, 'lidar_missing': 12000, 'spline_filled': 2000,
       'scaled_pixels': 1200, 'outside_pixels': 40000, 'gap_pixels': 4000, 'rejected_slopes': 50000, 'single_band': 500, 'wind_gaps': 40, 'moving': 20, 'no_gaps': 15, 'lidar_bounded': 8000, 'calm': 8}

K = .5
BANDS = [(.005, .015), (.005, .03), (.005, .05), (.008, .02), (.008, .04), (.008, .06)] + \
    [(a, b) for d in range(-2, 1) for a, b in [(x * 10.0 ** d, y * 10.0 ** d) for x, y in ((2, 7), (2, 10), (2, 15), (3, 10), (3, 20), (3, 30), (5, 15), (5, 30), (5, 50), (8, 20), (8, 40), (8, 60))]]
BANDS = [(float(f"{a:.6g}"), float(f"{b:.6g}")) for a, b in BANDS]


def cases(tier, seed):
    n = 270 if tier == "quick" else 2000
    return [{"seed": seed * 100000 + i, "kind": k} for i in range(n) for k in ("radar", "lidar")]


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng([spec["seed"], len(spec["kind"])])
    (radar if spec["kind"] == "radar" else lidar)(obs, rng, str(tmp))
    obs.sig = f"{spec['kind']}-{spec['seed']}"
    obs.sample = {"kind": spec["kind"], "observed": dict(obs.counts)}
    return obs


def turbulent(rng, t, slope, amp):
    """series whose power spectrum follows frequency ** slope"""
    n = len(t)
    f = np.fft.rfftfreq(n, 1.0)[1:]
    a = f ** (slope / 2) * np.exp(2j * np.pi * rng.random(f.size))
    if rng.random() < .7:
        a *= np.sqrt(-np.log(rng.random(f.size)))
    x = np.fft.irfft(np.concatenate([[0], a]), n)
    return amp * x / (np.std(x) or 1)


def field(rng, obs, t, nh):
    v = np.empty((len(t), nh))
    for j in range(nh):
        kind = str(rng.choice(["turb", "turb", "turb", "white", "wave", "constant"]))
        amp = float(rng.choice([.02, .3, 2.0]))
        if kind == "turb":
            v[:, j] = turbulent(rng, t, float(rng.choice([-5 / 3, -5 / 3, -1.5, -2.2])), amp)
        elif kind == "white":
            v[:, j] = rng.normal(0, amp, len(t))
        elif kind == "wave":
            v[:, j] = amp * np.sin(t * 3600 * 2 * np.pi / rng.uniform(20, 300)) + rng.normal(0, amp / 100, len(t))
        else:
            v[:, j] = 1.25
        if kind != "constant":
            v[:, j] += rng.uniform(-2, 2)
    m = np.zeros(v.shape, bool)
    for j in range(nh):
        g = str(rng.choice(["none", "none", "few", "few", "many", "all", "block"]))
        if g == "few":
            m[rng.random(len(t)) < rng.uniform(.01, .12), j] = True
        elif g == "many":
            m[rng.random(len(t)) < .4, j] = True
        elif g == "all":
            m[:, j] = True
        elif g == "block":
            s = int(rng.integers(0, len(t)))
            m[s:s + int(rng.integers(1, len(t))), j] = True
    return v.astype("f4").astype(float), m


# ------------------------------------------------------------------ radar
def write_radar(path, R):
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        gen._globals(nc, "radar", "RPG-FMCW-94", R["uuid"])
        nc.createDimension("time", len(R["time"]))
        nc.createDimension("range", len(R["range"]))
        gen.put(nc, "time", R["time"], ("time",), "hours since 2023-06-14 00:00:00 +00:00", dtype="f8")
        gen.put(nc, "range", R["range"], ("range",), "m")
        gen.put(nc, "height", R["range"] + R["alt"], ("range",), "m")
        for k, u in (("altitude", "m"), ("latitude", "degree_north"), ("longitude", "degree_east")):
            x = R[k]
            gen.put(nc, k, x, () if np.ndim(x) == 0 else ("time",), u, standard_name=k)
        gen.put(nc, "v", ma.array(R["v"], mask=R["m"]), ("time", "range"), "m s-1")


def radar(obs, rng, tmp):
    from cloudnetpy.products import generate_epsilon_from_radar
    dt = float(rng.choice([1, 2, 3, 5, 10]))
    minutes = float(rng.uniform(6, 16)) if dt > 1 else 7.0
    n = int(minutes * 60 / dt)
    t0 = float(rng.choice([0.0, rng.uniform(0, 23.7), 24 - minutes / 60]))
    t = t0 + np.arange(n) * dt / 3600
    if rng.random() < .3:  # outage
        k = int(rng.integers(1, n - 1))
        t[k:] += float(rng.uniform(.01, .2))
    t = t[t < 24]
    if rng.random() < .2:
        t = t + rng.uniform(-.2, .2, len(t)) / 3600
        t = np.sort(np.clip(t, 0, 23.9999))
    nh = int(rng.integers(3, 9))
    rg = 150 + np.cumsum(rng.uniform(20, 300, nh)).astype("f4").astype(float)
    alt = float(rng.choice([0, 104, 3000]))
    v, m = field(rng, obs, t, nh)
    moving = rng.random() < .3
    lat = 50.0 + (np.linspace(0, .5, len(t)) if moving else 0)
    lon = -20.0 + (np.linspace(0, .5, len(t)) if moving else 0)
    if moving:
        obs.n("moving")
    R = {"time": t, "range": rg, "alt": alt, "altitude": np.full(len(t), alt) if rng.random() < .5 else alt, "latitude": lat, "longitude": lon, "v": v, "m": m, "uuid": gen.rand_uuid(rng)}
    nz = int(rng.integers(6, 12))
    mt = np.arange(0, 25, float(rng.choice([1, 3])))
    sfc = None if rng.random() < .5 else alt + rng.uniform(-80, 80)
    mh = np.sort(rng.uniform(5, 6000, (len(mt), nz)), axis=1)
    M = {"time": mt, "height": mh, "u": rng.uniform(-12, 12, mh.shape), "w": rng.uniform(-12, 12, mh.shape), "sfc": sfc}
    if rng.random() < .15:
        M["u"][:], M["w"][:] = 0.0, 0.0
        obs.n("calm")
    model = tmp + "/model.nc"
    with netCDF4.Dataset(model, "w", format="NETCDF4_CLASSIC") as nc:
        gen._globals(nc, "model", "ECMWF", gen.rand_uuid(rng))
        nc.createDimension("time", len(mt))
        nc.createDimension("level", nz)
        gen.put(nc, "time", mt, ("time",), "hours since 2023-06-14 00:00:00 +00:00")
        km = rng.random() < .3
        gen.put(nc, "height", mh / (1000 if km else 1), ("time", "level"), "km" if km else "m", dtype="f8")
        gen.put(nc, "uwind", M["u"], ("time", "level"), "m s-1", dtype="f8")
        gen.put(nc, "vwind", M["w"], ("time", "level"), "m s-1", dtype="f8")
        if sfc is not None:
            gen.put(nc, "sfc_height", np.full(len(mt), sfc), ("time",), "m", dtype="f8")
    src = tmp + "/radar.nc"
    write_radar(src, R)
    out = tmp + "/out.nc"
    generate_epsilon_from_radar(src, model, out)
    a = read(out)
    obs.n("radar_files")
    judge_radar(obs, R, M, a, dt, alt)
    relations(obs, rng, tmp, R, model, a, generate_epsilon_from_radar)


def read(path):
    with netCDF4.Dataset(path) as nc:
        return {k: nc[k][:] for k in nc.variables}


def wind(M, alt, times, heights):
    base = alt if M["sfc"] is None else M["sfc"]
    h = M["height"] + base
    mean = h.mean(axis=0)
    speed = np.hypot(M["u"], M["w"])
    prof = np.array([np.interp(mean, h[i], speed[i]) for i in range(len(M["time"]))])
    out = np.empty((len(times), len(heights)))
    for i, x in enumerate(times):
        p = np.array([np.interp(x, M["time"], prof[:, k]) for k in range(len(mean))])
        out[i] = np.interp(heights, mean, p)
    return out


def judge_radar(obs, R, M, a, dt, alt):
    t, v, m = R["time"], R["v"], R["m"]
    grid = (np.arange(2880) + .5) / 120
    keep = [x for x in grid if np.any((t > x) & (t <= x + 5 / 60))]
    close = [x for x in grid if np.any(np.abs(t - x) < 1e-9) or np.any(np.abs(t - x - 5 / 60) < 1e-9)]
    pt = np.asarray(a["time"], float)
    if not obs.check(pt.shape == (len(keep),) and np.allclose(pt, keep, atol=1e-6) or bool(close), "radar-grid", lambda: f"product times {pt[:3]}.. ({len(pt)}), expected {keep[:3]}.. ({len(keep)})"):
        return
    eps, err = a["epsilon"], a["epsilon_error"]
    h = (R["range"] + R["alt"]).astype("f4").astype(float)
    if not obs.check(eps.shape == (len(pt), len(h)) and err.shape == eps.shape, "radar-shape", lambda: f"epsilon {eps.shape}"):
        return
    ok = ma.getdata(eps)[~ma.getmaskarray(eps)]
    obs.check(bool(np.all(np.isfinite(ok)) and np.all(ok >= 0)), "radar-not-positive", lambda: f"epsilon min {ok.min()} max {ok.max()}")
    oe = ma.getdata(err)[~ma.getmaskarray(err)]
    obs.check(bool(np.all(np.isfinite(oe)) and np.all(oe >= 0)), "radar-error-negative", lambda: f"epsilon_error min {oe.min()}")
    obs.check(not np.any(ma.getmaskarray(eps) & ~ma.getmaskarray(err)), "radar-error-alone", lambda: "epsilon_error where epsilon is missing")
    W = wind(M, alt, pt, h)
    dt = float(np.round(np.median(np.diff(t)) * 3600))
    for i, x in enumerate(pt):
        sel = np.nonzero((t > x) & (t <= x + 5 / 60))[0]
        if any(abs(t[k] - e) < 1e-9 for k in (sel[0] - 1, sel[0], sel[-1], min(sel[-1] + 1, len(t) - 1)) if k >= 0 for e in (x, x + 5 / 60)):
            obs.n("borderline_windows")
            continue
        for j in range(len(h)):
            obs.n("radar_pixels")
            e, s, why = radar_pixel(obs, t[sel], v[sel, j], m[sel, j], dt, W[i, j])
            if why == "borderline":
                obs.n("borderline_pixels")
                continue
            missing = bool(ma.getmaskarray(eps)[i, j])
            if e is None:
                obs.n("radar_missing")
                obs.check(missing, "radar-unexpected:" + why, lambda: f"epsilon[{i},{j}] = {eps[i, j]}, expected missing ({why}), {int((~m[sel, j]).sum())} of {len(sel)} velocities")
                continue
            obs.n("radar_retrieved")
            if not obs.check(not missing, "radar-lost", lambda: f"epsilon[{i},{j}] missing, expected {e:.4g}"):
                continue
            obs.check(abs(float(eps[i, j]) - e) <= 2e-3 * e, "radar-value", lambda: f"epsilon[{i},{j}] = {float(eps[i, j]):.6g}, direct evaluation {e:.6g} (wind {W[i, j]:.3f})")
            if s is None:
                obs.n("single_band")
                obs.check(bool(ma.getmaskarray(err)[i, j]), "radar-error-single", lambda: f"epsilon_error[{i},{j}] = {err[i, j]} from one band")
            else:
                obs.check(not ma.getmaskarray(err)[i, j] and abs(float(err[i, j]) - s) <= 5e-3 * s + 2e-5 * e, "radar-error", lambda: f"epsilon_error[{i},{j}] = {err[i, j]}, direct evaluation {s:.6g}")


def radar_pixel(obs, t, v, bad, dt, u):
    """-> epsilon, spread, reason if missing"""
    if bad[:2].all() or bad[-2:].all():
        return None, None, "edges"
    good = ~bad
    if good.sum() < max(2, int(.9 * len(t))):
        return None, None, "gaps"
    if bad.any():
        v = CubicSpline(t[good], v[good])(t)
        obs.n("spline_filled")
    if u <= 1e-9:
        return None, None, "calm"
    n = len(v)
    X = np.fft.fft(v)[1:n // 2 + 1]
    P = dt * u / n * np.abs(X) ** 2 / np.pi
    k = 2 * np.pi * np.arange(1, n // 2 + 1) / (n * dt * u)
    if np.std(v) < 1e-6 * np.max(np.abs(v)) or np.any((P > 0) & (P < 1e-12 * np.max(v ** 2 + 1e-30))):
        return None, None, "borderline"  # rounding noise
    k, P = k[P > 0], P[P > 0]
    if len(k) < 2:
        return None, None, "constant"
    E, near = [], False
    for a, b in BANDS:
        if np.any(np.abs(k / a - 1) < 1e-6) or np.any(np.abs(k / b - 1) < 1e-6):
            near = True
        s = (k > a) & (k < b)
        if s.sum() < 2:
            continue
        x, y = np.log10(k[s]), np.log10(P[s])
        xm = x.mean()
        slope = np.sum((x - xm) * (y - y.mean())) / np.sum((x - xm) ** 2)
        if min(abs(slope + 2), abs(slope + 1.33)) < 1e-4:
            near = True
        if -2 < slope < -1.33:
            E.append((10 ** (y.mean() - slope * xm) / K) ** 1.5)
        else:
            obs.n("rejected_slopes")
    if near:
        return None, None, "borderline"
    if not E:
        return None, None, "slopes"
    return float(np.mean(E)), float(np.std(E, ddof=1)) if len(E) > 1 else None, ""


def relations(obs, rng, tmp, R, model, a, run):
    t, eps = R["time"], a["epsilon"]
    have = ~ma.getmaskarray(eps)
    pt = np.asarray(a["time"], float)

    def again(v, m):
        S = dict(R, v=v, m=m)
        write_radar(tmp + "/again.nc", S)
        run(tmp + "/again.nc", model, tmp + "/out2.nc")
        return read(tmp + "/out2.nc")
    which = int(rng.integers(3))
    if which == 0:
        f = float(rng.choice([.5, 2.0, -4.0]))
        b = again(R["v"] * f, R["m"])["epsilon"]
        obs.n("scaled_pixels", int(have.sum()))
        good = have & ~ma.getmaskarray(b) & (ma.getdata(eps) > 1e-12)
        r = ma.getdata(b)[good] / (ma.getdata(eps)[good] * abs(f) ** 3) if good.any() else np.ones(1)
        same = np.array_equal(have, ~ma.getmaskarray(b))
        obs.check(bool(np.all(np.abs(r - 1) < 2e-3)), "radar-scaling", lambda: f"velocities times {f}: epsilon changes by {r.min() * abs(f) ** 3:.4g}..{r.max() * abs(f) ** 3:.4g}, expected {abs(f) ** 3}")
        obs.check(same or np.mean(have == ~ma.getmaskarray(b)) > .99, "radar-scaling-mask", lambda: f"velocities times {f}: other pixels missing")
    elif which == 1:
        # velocities of some profiles replaced: only windows holding them may change
        k = int(rng.integers(0, len(t)))
        w = slice(k, k + int(rng.integers(1, 30)))
        v = R["v"].copy()
        v[w] += rng.normal(0, 3, v[w].shape)
        b = again(v, R["m"])["epsilon"]
        touched = np.array([np.any((t[w] > x - 1e-6) & (t[w] < x + 5 / 60 + 1e-6)) for x in pt])
        obs.n("outside_pixels", int((~touched).sum() * eps.shape[1]))
        obs.check(equal(eps[~touched], b[~touched]), "radar-not-local", lambda: f"profiles {t[w]} changed epsilon of a window that does not hold them")
    else:
        j = int(rng.integers(eps.shape[1]))
        m = R["m"].copy()
        m[:, j] = True
        b = again(R["v"], m)["epsilon"]
        o = np.arange(eps.shape[1]) != j
        obs.n("gap_pixels", int(eps.shape[0] * eps.shape[1]))
        obs.check(bool(ma.getmaskarray(b)[:, j].all()), "radar-without-velocity", lambda: f"epsilon at height {j} without any velocity")
        obs.check(equal(eps[:, o], b[:, o]), "radar-other-height", lambda: f"removing velocities of height {j} changes other heights")


def equal(a, b):
    return a.shape == b.shape and bool(np.array_equal(ma.getmaskarray(a), ma.getmaskarray(b))) and bool(np.array_equal(a.filled(0), b.filled(0)))


# ------------------------------------------------------------------ Doppler lidar
def put_time(nc, t, n=None):
    nc.createDimension("time", n)
    v = nc.createVariable("time", "f8", ("time",))
    v[:] = t
    v.units, v.calendar = "hours since 2023-06-14 00:00:00 +00:00", "standard"


def lidar(obs, rng, tmp):
    from cloudnetpy.exceptions import ValidTimeStampError
    from cloudnetpy.products import generate_epsilon_from_lidar
    dt = float(rng.choice([2, 5, 7.5, 12]))
    n = int(rng.integers(40, 250))
    t = float(rng.uniform(0, 23)) + np.arange(n) * dt / 3600
    if rng.random() < .3:
        k = int(rng.integers(1, n - 1))
        t[k:] += float(rng.uniform(.01, .2))
    t = t[t < 24]
    t = np.round(t * 3600 * 1e3) / 1e3 / 3600
    nh = int(rng.integers(3, 9))
    rg = np.cumsum(rng.uniform(20, 200, nh)) + 60
    v, m = field(rng, obs, t, nh)
    if rng.random() < .25:
        m[:] = False
        obs.n("no_gaps")
    acc = rng.random() < .6
    ray = float(rng.choice([.5, 1.0, 1.5]))
    ppr = 10000
    wt = np.arange(0, 24, float(rng.choice([.25, 1]))) + .1
    wh = np.sort(rng.uniform(50, 2000, int(rng.integers(5, 12))))
    U, V = rng.uniform(-12, 12, (len(wt), len(wh))), rng.uniform(-12, 12, (len(wt), len(wh)))
    gap = rng.random()
    um = np.zeros(U.shape, bool)
    if gap < .5:
        um = rng.random(U.shape) < rng.choice([.05, .4])
        obs.n("wind_gaps")
    vm = um.copy()
    side = rng.random()  # gaps of one component only
    if side < .3:
        um = um & False
    elif side < .6:
        vm = vm & False
    src, wsrc, out = tmp + "/stare.nc", tmp + "/wind.nc", tmp + "/out.nc"
    ids = [gen.rand_uuid(rng), gen.rand_uuid(rng)]
    moving = rng.random() < .2

    def write(v, m):
        with netCDF4.Dataset(src, "w", format="NETCDF4_CLASSIC") as nc:
            gen._globals(nc, "doppler-lidar", "HALO Photonics StreamLine", ids[0])
            put_time(nc, t)
            nc.createDimension("range", nh)
            gen.put(nc, "range", rg, ("range",), "m")
            gen.put(nc, "height", rg + 10, ("range",), "m", standard_name="height_above_mean_sea_level", long_name="Height above mean sea level")
            gen.put(nc, "v", ma.array(v, mask=m), ("time", "range"), "m s-1")
            if acc:
                gen.put(nc, "ray_accumulation_time", ray, (), "s")
            else:
                gen.put(nc, "pulses_per_ray", ppr, (), "1", dtype="i4")
            for k, x, u in (("latitude", 50.0, "degree_north"), ("longitude", -20.0, "degree_east"), ("altitude", 10.0, "m")):
                gen.put(nc, k, np.full(len(t), x) if moving else x, ("time",) if moving else (), u)
    write(v, m)
    with netCDF4.Dataset(wsrc, "w", format="NETCDF4_CLASSIC") as nc:
        gen._globals(nc, "doppler-lidar-wind", "HALO Photonics StreamLine", ids[1])
        put_time(nc, wt)
        nc.createDimension("height", len(wh))
        gen.put(nc, "height", wh, ("height",), "m", dtype="f8")
        gen.put(nc, "uwind", ma.array(U, mask=um), ("time", "height"), "m s-1", dtype="f8")
        gen.put(nc, "vwind", ma.array(V, mask=vm), ("time", "height"), "m s-1", dtype="f8")
    generate_epsilon_from_lidar(src, wsrc, out)
    a = read(out)
    obs.n("lidar_files")
    ray = ray if acc else ppr / 15000
    tt, eps = np.asarray(a["time"], float), a["epsilon"]
    if not obs.check(tt.shape == t.shape and np.allclose(tt, t, atol=1e-6) and eps.shape == v.shape, "lidar-grid", lambda: f"time {tt.shape}, epsilon {eps.shape}, velocity {v.shape}"):
        return
    have = ~ma.getmaskarray(eps)
    obs.check(not np.any(have & m), "lidar-invalid-velocity", lambda: "epsilon where velocity is missing")
    ok = ma.getdata(eps)[have]
    obs.check(bool(np.all(np.isfinite(ok)) and np.all(ok >= 0)), "lidar-not-positive", lambda: f"epsilon min {ok.min()} max {ok.max()}")
    E, doubt, bounds = lidar_reference(t, (rg + 10).astype("f4").astype(float), v, m, ray, *wind_points(t, wt, wh, U, V, um | vm))
    for (i, j), (lo, hi) in bounds.items():
        if have[i, j]:
            obs.n("lidar_bounded")
            obs.check(lo * .99 - 1e-12 <= float(eps[i, j]) <= hi * 1.01 + 1e-12, "lidar-gap-value", lambda: f"epsilon[{i},{j}] = {float(eps[i, j]):.6g} where wind is missing nearby, the measured winds allow {lo:.6g}..{hi:.6g}")
    if E is not None:
        exp = np.isfinite(E) & ~m
        for i, j in zip(*np.nonzero(~doubt)):
            if not exp[i, j]:
                obs.n("lidar_missing")
                obs.check(not have[i, j], "lidar-unexpected", lambda: f"epsilon[{i},{j}] = {eps[i, j]}, expected missing (velocity {'missing' if m[i, j] else v[i, j]})")
            else:
                obs.n("lidar_retrieved")
                if obs.check(bool(have[i, j]), "lidar-lost", lambda: f"epsilon[{i},{j}] missing, expected {E[i, j]:.4g}"):
                    obs.check(abs(float(eps[i, j]) - E[i, j]) <= 5e-3 * E[i, j] + 1e-12, "lidar-value", lambda: f"epsilon[{i},{j}] = {float(eps[i, j]):.6g}, direct evaluation {E[i, j]:.6g}")
    obs.check(abs(float(a["ray_accumulation_time"]) - ray) < 1e-5 and float(a["rolling_window_period"]) == 180, "lidar-options", lambda: f"{a['ray_accumulation_time']} {a['rolling_window_period']}")
    # locality
    k = int(rng.integers(0, len(t)))
    w = slice(k, k + int(rng.integers(1, 20)))
    v2 = v.copy()
    v2[w] += rng.normal(0, 1, v2[w].shape)
    write(v2, m)
    generate_epsilon_from_lidar(src, wsrc, tmp + "/out2.nc")
    b = read(tmp + "/out2.nc")["epsilon"]
    step = 90.0 + 1e-3
    far = np.array([not np.any(np.abs(t[w] - x) * 3600 <= step + np.max(np.diff(t)) * 3600) for x in t])
    obs.n("outside_pixels", int(far.sum() * nh))
    x, y = eps[far], b[far]
    both = ~ma.getmaskarray(x) & ~ma.getmaskarray(y) & ~doubt[far] if E is not None else ~ma.getmaskarray(x) & ~ma.getmaskarray(y)
    obs.check(bool(np.all(np.abs(x.filled(0) - y.filled(0))[both] <= 1e-3 * x.filled(0)[both] + 1e-9)), "lidar-not-local", lambda: f"profiles {t[w]} changed epsilon further than the window away")


def wind_points(t, wt, wh, U, V, um):
    """wind speed at the wind grid, gaps filled from neighbours -> wt, wh, speed and whether it is unambiguous"""
    return wt, wh, np.hypot(U, V), um


def lidar_reference(t, h, w, m, ray, wt, wh, speed, um):
    """direct evaluation of O'Connor et al. (2010) -> epsilon (NaN missing), doubtful pixels"""
    n, nh = w.shape
    E = np.full((n, nh), np.nan)
    doubt = np.zeros((n, nh), bool)
    bounds = {}
    us = np.round(t * 3600 * 1e6)
    half = 90e6
    if um.any():
        S = speed.copy()
        S[um] = np.nan
    else:
        S = speed
    # bilinear interpolation to the profiles, nearest value outside the wind profile
    Vp = np.empty((n, nh))
    for i, x in enumerate(t):
        inside_t = wt[0] <= x <= wt[-1]
        k = int(np.clip(np.searchsorted(wt, x) - 1, 0, len(wt) - 2))
        a = (x - wt[k]) / (wt[k + 1] - wt[k])
        for j, z in enumerate(h):
            if inside_t and wh[0] <= z <= wh[-1]:
                q = int(np.clip(np.searchsorted(wh, z) - 1, 0, len(wh) - 2))
                b = (z - wh[q]) / (wh[q + 1] - wh[q])
                Vp[i, j] = (1 - a) * (1 - b) * S[k, q] + a * (1 - b) * S[k + 1, q] + (1 - a) * b * S[k, q + 1] + a * b * S[k + 1, q + 1]
            else:
                kk, qq = int(np.argmin(np.abs(wt - x))), int(np.argmin(np.abs(wh - z)))
                Vp[i, j] = S[kk, qq]
                if np.sort(np.abs(wt - x))[1] - np.sort(np.abs(wt - x))[0] < 1e-6:
                    doubt[i, j] = True
    for i in range(n):
        # first sample not later than half a period before, last one not earlier than half a period after
        lo = [k for k in range(n) if us[i] - us[k] >= half]
        hi = [k for k in range(n) if us[k] - us[i] >= half]
        a, b = (lo[-1] if lo else 0), (hi[0] if hi else n - 1)
        for j in range(nh):
            if m[i, j]:
                continue
            g = [k for k in range(a, b + 1) if not m[k, j]]
            x = w[g, j]
            U = Vp[a:b + 1, j].mean()
            var = np.mean((x - x.mean()) ** 2)
            if var < 1e-9 * np.mean(w[:, j][~m[:, j]] ** 2) * n or var == 0:
                doubt[i, j] = True
                continue
            if np.isnan(U):  # the wind is within the measured ones
                doubt[i, j] = True
                lim = [turb(var, u, us[g[-1]] - us[g[0]], ray, h[j]) for u in (np.nanmax(S), np.nanmin(S))]
                if np.all(np.isfinite(lim)):
                    bounds[i, j] = lim
                continue
            L = U * (us[g[-1]] - us[g[0]]) / 1e6
            L1 = U * ray + 2 * h[j] * np.sin(33e-6 / 2)
            d = L ** (2 / 3) - L1 ** (2 / 3)
            if abs(d) < 1e-3 * L1 ** (2 / 3):
                doubt[i, j] = True
                continue
            if d > 0:
                E[i, j] = 2 * np.pi * (2 / (3 * .55)) ** 1.5 * var ** 1.5 * d ** -1.5
    return E, doubt, bounds


def turb(var, u, span, ray, z):
    d = (u * span / 1e6) ** (2 / 3) - (u * ray + 2 * z * np.sin(33e-6 / 2)) ** (2 / 3)
    return 2 * np.pi * (2 / (3 * .55)) ** 1.5 * var ** 1.5 * d ** -1.5 if d > 0 else np.nan
