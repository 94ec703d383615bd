"""C16: lidar noise screening against an independent model of the documented screening."""
import datetime
import os

import numpy as np
from numpy import ma
from scipy.ndimage import correlate1d, maximum_filter

from .. import binfmt, ncfmt
from .. import textconv as tc
from ..runner import Obs

ID, LEVEL = "C16", "exploration"
RULE = ("ceilometer and lidar files of 7 formats with 100-600 gates up to 18 km and 6-40 profiles made of scenes (noise of 1e-12..1e-6, aerosol, clouds, negative overshoot, fog, sunbeam, "
        "clear air of zeros, missing pixels and profiles), with/without calibration factor, depolarisation and range correction; every pixel of beta, beta_smooth and depolarisation compared "
        "with an independent model of the screening (pixels closer than 1e-3 to a threshold are not judged); calibrated and repeated-profile twins; distinct by seed")
ASSUMPTIONS = ["gaussian smoothing with standard deviation of one minute and 10 m, truncated at four standard deviations, reflecting edges",
               "no claim on smoothed values in the neighbourhood of strong pixels that the first screening removed"]
MIN = {"files": 300, "pixels": 1500000, "judged_kept": 500000, "judged_masked": 2000000, "strong": 30000, "noise_pixels": 3000, "negative_profiles": 700, "fog_profiles": 2000,
       "plain_profiles": 1200, "sunbeam_profiles": 60, "depol": 90000, "calibrated": 80, "uncorrected": 20, "missing_raw": 15000, "files_polly": 20}
KINDS = ("chm15k", "cl61", "da10", "cl31", "cs135", "chm15k", "cl61", "pollyxt", "cl31", "cl51", "ct25k", "cl61")
NEAR = 1e-3

def cases(tier, seed):
    n = 2700 if tier == "quick" else 8000
    return [{"seed": seed * 100000 + i, "kind": KINDS[i % len(KINDS)], "m": ("plain", "plain", "plain", "cal", "plain", "sun")[(i // len(KINDS)) % 6]} for i in range(n)]

# ------------------------------------------------------------------ workload
def scene(rng, z, noise, kind, thick=False):
    """range-corrected backscatter of one profile"""
    n = len(z)
    r2 = (z / 1000) ** 2
    u = rng.normal(0, noise, n)
    if kind == "aerosol":
        u = u + float(10 ** rng.uniform(-8, -5.3)) * np.exp(-z / rng.uniform(300, 2500)) / np.maximum(r2, .01)
    elif kind in ("cloud", "negative"):
        u = u + 2e-6 * np.exp(-z / 600) / np.maximum(r2, .01)
        k = int(rng.integers(3, max(4, n // 3)))
        w = int(rng.integers(1, 6))
        u[k:k + w] += float(10 ** rng.uniform(-5.5, -3.3)) / np.maximum(r2[k:k + w], .01)
        if kind == "negative":
            m = int(rng.integers(3, 40))
            u[k + w:k + w + m] = -np.abs(rng.normal(0, float(10 ** rng.uniform(-8, -6)), len(u[k + w:k + w + m])))
    elif kind == "fog":
        w = int(rng.integers(3, 20))
        u[:w] += float(10 ** rng.uniform(-4.3, -3)) / np.maximum(r2[:w], .01)
        u[w:] *= rng.choice([1, .01])
    elif kind == "zero":
        u[:] = 0
    elif kind == "sunbeam":
        h = np.where(z > 10000)[0]
        w = len(h) // 20
        if w:
            j = rng.permutation(17)[:int(rng.integers(11, 18)) if not thick else 17]
            u[h[0] + j * w + w // 2] += noise * 300
    elif kind == "high":
        k = int(n * rng.uniform(.5, .98))
        u[k:k + 4] += float(10 ** rng.uniform(-7.5, -5.5))
    return u * r2

def build(rng, kind, m, min_gates=100):
    ng = int(rng.integers(min_gates, 380)) if m != "sun" else int(rng.integers(400, 620))
    if kind == "cl51":
        ng = 1540
    cls = {"cl51": binfmt.Cl31}.get(kind) or (ncfmt.ALL.get(kind) or binfmt.ALL[kind])
    fmt = cls(rng, n_gates=ng) if kind != "ct25k" else cls(rng)
    if m == "sun" and kind != "ct25k":
        fmt.step = 30.0 if kind != "cl51" else 10.0
        fmt.raw_range = np.arange(fmt.n) * fmt.step + (0 if fmt.reference == "lower" else fmt.step)
    if kind == "cl51":
        fmt.site.pop("model", None)
        if fmt.comma:
            fmt.site["model"] = "cl51"
    if m != "cal":
        fmt.cal = None if rng.random() < .6 else fmt.cal
        if fmt.cal is None:
            fmt.site.pop("calibration_factor", None)
    if kind in ("cs135", "cl31", "cl51", "cl61", "ct25k") and m == "plain" and rng.random() < .25:
        fmt.site["range_corrected"] = False
    return fmt

def records(rng, fmt, kind, m, n_time):
    z = fmt.out_range()
    base = float(10 ** rng.uniform(-10.5, -7.3))
    r2 = (z / 1000) ** 2
    kinds = ["noise", "aerosol", "cloud", "negative", "high", "aerosol", "cloud"] + (["fog", "zero"] if rng.random() < .6 else [])
    if m == "sun":
        kinds += ["sunbeam"] * (8 if rng.random() < .8 else 200)
    dt = float(rng.choice([10, 15, 30, 60, 120]))
    t0 = datetime.datetime(2023, 5, 1, int(rng.integers(0, 22)))
    ts = t0 + np.array([datetime.timedelta(seconds=round(float(x), 1)) for x in np.cumsum(dt * (1 + (rng.random(n_time) < .1) * rng.uniform(0, 3, n_time)))])
    if m == "sun" and kinds[-1] == "sunbeam" and len(kinds) > 100:
        kinds = ["sunbeam"]
    recs, scenes = [], []
    cur = None
    for t in ts:
        if cur is None or rng.random() < .35:
            cur = str(rng.choice(kinds))
        noise = base * float(10 ** rng.uniform(-.15, .15)) if rng.random() < .9 else float(10 ** rng.uniform(-12, -6.3))
        if m == "sun":
            noise = float(10 ** rng.uniform(-9, -8))
        b = scene(rng, z, noise, cur, thick=kinds == ["sunbeam"])
        if fmt.site.get("range_corrected") is False and kind in ("cl31", "cl51"):
            b = np.where(z < 2400, b, b / r2)
        fmt.beta = lambda _rng, b=b: b.copy()
        rec = fmt.new(rng, t.replace(microsecond=0) if kind in ("cl31", "cl51", "ct25k") else t)
        scenes.append(cur)
        recs.append(rec)
    if len({r["t"] for r in recs}) < len(recs):
        keep = {r["t"]: i for i, r in reversed(list(enumerate(recs)))}
        ii = sorted(keep.values())
        recs, scenes = [recs[i] for i in ii], [scenes[i] for i in ii]
    if kind in ("chm15k", "cl61", "da10") and rng.random() < .35:
        fmt.fill = ncfmt.pick(rng, None, -999., 9.969209968386869e36)
        for r in recs:
            if rng.random() < .2:
                if rng.random() < .3:
                    r["b"][:] = np.nan
                else:
                    k = int(rng.integers(fmt.n))
                    r["b"][k:k + int(rng.integers(1, 12))] = np.nan
    return recs, scenes

# ------------------------------------------------------------------ model
def runs(neg):
    c = np.zeros(neg.shape, int)
    for j in range(neg.shape[1]):
        c[:, j] = (c[:, j - 1] + 1 if j else 1) * neg[:, j]
    return c

class Model:
    """first and second screening; value and margin (relative distance to the nearest threshold)"""

    def __init__(self, raw, rng_m, time, kind, corrected, old):
        self.raw, self.z = raw, rng_m          # raw: masked array, calibrated
        self.t = time
        self.corr = corrected
        lim = 1e12
        if not corrected:
            lim = {"ct25k": 0., "cl31": 2400., "cl51": 2400.}.get(kind, 1e12)
        self.alt = rng_m < lim
        self.floor = {"cl31": (3.1e-8, 1.1e-8), "cl51": (3.1e-8, 1.1e-8), "ct25k": (.7e-7, 1.2e-8)}.get(kind, (1e-9, 4e-9))
        self.n_neg = 20 if kind in ("ct25k", "cl31") or old else 5
        self.r2 = np.where(self.alt, (rng_m / 1000) ** 2, 1.0)

    def screen(self, field, smooth):
        """-> keep, unsure, (flags)"""
        mk = ma.getmaskarray(field)
        u = np.where(mk, np.nan, ma.getdata(field)) / self.r2
        nt, n = u.shape
        top = round(n * .1)
        with np.errstate(all="ignore"):
            noise = np.array([np.std(r[~np.isnan(r)]) if (~np.isnan(r)).any() else np.nan for r in u[:, -top:]])
        dead = np.isnan(noise)               # nothing known about the noise
        floor = self.floor[1 if smooth else 0]
        noise = np.where(noise < floor, floor, noise)
        keep = ~mk & ~np.isnan(u)
        unsure = np.zeros(u.shape, bool)
        seg = u[:, 5:100]
        with np.errstate(invalid="ignore"):
            c = runs(seg < 0)
        neg = np.zeros(nt, bool)
        for i in range(nt):
            w = np.where(c[i] > self.n_neg)[0]
            if not len(w):
                continue
            neg[i] = True
            j = w[0] + 5
            with np.errstate(invalid="ignore"):
                keep[i, j:] &= ~(u[i, j:] < 8e-6)
                unsure[i, j:] |= np.abs(u[i, j:] - 8e-6) < NEAR * 8e-6
        b = np.where(ma.getmaskarray(self.raw), np.nan, ma.getdata(self.raw))
        s = np.nansum(np.abs(b[:, :20]), axis=1)
        with np.errstate(all="ignore"):
            v = np.array([np.var(r[~np.isnan(r)]) if (~np.isnan(r)).any() else np.nan for r in b[:, -top:]])
            fog = (s > 1e-3) | (v < 1e-15)
        close_fog = (np.abs(s - 1e-3) < NEAR * 1e-3) | (np.abs(v - 1e-15) < 1e-2 * 1e-15)
        for i in np.where(fog)[0]:
            x = np.where(keep[i], u[i], -np.inf)
            p = int(np.argmax(x))
            if np.isfinite(x[p]):            # other gates that may be the peak
                for q in (np.where(x >= x[p] - NEAR * abs(x[p]))[0][[0, -1]]):
                    a, c = min(p, q), max(p, q)
                    unsure[i, a:c] |= u[i, a:c] < 2.01e-6
            with np.errstate(invalid="ignore"):
                keep[i, p:] &= ~(u[i, p:] < 2e-6)
                unsure[i, p:] |= np.abs(u[i, p:] - 2e-6) < NEAR * 2e-6
        noise = np.where(neg | fog, 1e-12, noise)
        lim = 5 * noise[:, None] / np.where(self.alt & (not self.corr), 6.0, 1.0)[None, :]
        with np.errstate(invalid="ignore"):
            keep &= ~(u < lim)
            unsure |= np.abs(u - lim) <= NEAR * np.abs(lim)
        unsure[close_fog] = True
        unsure[dead] = True
        self.flags = {"neg": neg, "fog": fog, "dead": dead}
        return keep, unsure

    def smooth(self, keep1):
        """smoothed field and where it is not claimed"""
        b = np.where(ma.getmaskarray(self.raw), 0, ma.getdata(self.raw))
        cloud = keep1 & (b > 1e-6)
        f = np.where(cloud, 1e-6, b)
        step = np.median(np.diff(self.t)) * 60
        sig = (1 / step, 10 / np.median(np.diff(self.z)))
        self.reach = [int(4 * s + .5) for s in sig]
        self.local = maximum_filter(np.abs(f), [2 * r + 1 for r in self.reach], mode="nearest")
        for ax, s in enumerate(sig):
            f = gauss(f, s, ax)
        return np.where(cloud, b, f), cloud

def gauss(f, s, ax):
    r = int(4 * s + .5)
    x = np.arange(-r, r + 1)
    w = np.exp(-.5 * x ** 2 / s ** 2)
    w /= w.sum()
    return correlate1d(f, w, axis=ax, mode="reflect")

def dilate(m, reach):
    out = m.copy()
    for ax, r in enumerate(reach):
        if r:
            w = np.ones(2 * r + 1)
            out = correlate1d(out.astype(float), w, axis=ax, mode="constant") > .5
    return out

def beams(keep, unsure, z):
    """-> dropped, not sure"""
    h = z > 10000
    if not h.any():
        return np.zeros(len(keep), bool), np.zeros(len(keep), bool)
    nb = int(h.sum()) // 20

    def count(m):
        return m[:, h][:, :nb * 20].reshape(len(m), 20, nb).any(axis=2).sum(axis=1)
    lo, hi = count(keep & ~unsure), count(keep | unsure)
    return lo >= 15, (lo >= 15) != (hi >= 15)

# ------------------------------------------------------------------ case
def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    kind, m = spec["kind"], spec["m"]
    fmt = build(rng, kind, m)
    n_time = int(rng.integers(6, 40)) if kind not in ("cl51", "ct25k") else int(rng.integers(4, 14))
    recs, scenes = records(rng, fmt, kind, m, n_time)
    d = f"{tmp}/raw"
    arg = fmt.files(d, [recs])
    out = f"{tmp}/out.nc"
    obs.sig = f"{kind}-{m}-{spec['seed']}"
    exp = fmt.expected(fmt.kept(recs))
    all_missing = bool(ma.getmaskarray(exp["beta_raw"]).all()) if np.size(exp["beta_raw"]) else True
    from cloudnetpy.exceptions import CloudnetException
    try:
        fmt.run(arg, out)
    except CloudnetException as e:
        if all_missing or type(e).__name__ == "ValidTimeStampError":
            ok = all_missing or (kind == "pollyxt" and not ma.sum(exp["beta_raw"])) or dropped_all(fmt, exp, kind)
            obs.n("all_sunbeam", int(not all_missing))
            obs.check(ok, f"refused:{kind}", f"{kind}: {e!r} although valid profiles exist")
            obs.check(not os.path.exists(out), f"partial-file:{kind}", f"{kind}: conversion failed ({e!r}) but left a file")
            obs.nontrivial = True
            return obs
        raise
    nc = tc.read(out)
    obs.n("files")
    judge(obs, fmt, kind, exp, nc, scenes)
    if m == "cal" and kind != "pollyxt":
        calibrated(obs, rng, fmt, kind, arg, nc, tmp)
    obs.nontrivial = obs.counts.get("pixels", 0) > 0
    obs.sample = {"kind": kind, "m": m, "n": len(recs), "gates": fmt.n, "scenes": sorted(set(scenes))}
    return obs

def dropped_all(fmt, exp, kind):
    md = Model(exp["beta_raw"], np.asarray(exp["range"]), np.asarray(exp["time"]), kind, fmt.site.get("range_corrected", True), getattr(fmt, "old", False))
    keep, un = final(md, kind)[:2]
    drop, close = beams(keep, un, md.z)
    return bool((drop | close).all())

def final(md, kind):
    k1, u1 = md.screen(md.raw, False)
    fl = dict(md.flags)
    sm, cloud = md.smooth(k1)
    mk = ma.getmaskarray(md.raw)

    amb = dilate(u1 & ~mk & (ma.getdata(md.raw) > .999e-6), md.reach)
    k2, u2 = md.screen(ma.array(sm, mask=mk), True)
    # a sign of a smoothed value close to zero is a matter of rounding
    seg = slice(5, 100)
    tiny = (np.abs(sm[:, seg]) < 1e-6 * md.local[:, seg]) & ~mk[:, seg] & (sm[:, seg] != 0)
    neg = (sm[:, seg] < 0) & ~mk[:, seg]
    lo, hi = runs(neg & ~tiny) > md.n_neg, runs(neg | tiny) > md.n_neg
    u2[(lo.any(axis=1) != hi.any(axis=1)) | (lo.argmax(axis=1) != hi.argmax(axis=1))] = True
    u2[amb.any(axis=1)] = True
    md.sm = sm
    if kind in ("cs135", "ct25k") or not md.corr:
        return k1, u1, k2, u2, fl
    b = ma.getdata(md.raw)
    return k2 & (b > 0) & ~mk, u2, k2, u2, fl

def judge(obs, fmt, kind, exp, nc, scenes):
    g = nc["vars"]
    raw = ma.asarray(exp["beta_raw"])
    time = np.asarray(exp["time"])
    z = np.asarray(exp["range"])
    t = np.asarray(g["time"])
    if not len(t):
        obs.bad(f"empty-file:{kind}", f"{kind}: all profiles were dropped and a file without profiles was written")
        return
    idx = np.array([int(np.argmin(np.abs(time - x))) for x in t], int)
    if len(set(idx.tolist())) != len(idx) or np.any(np.abs(time[idx] - t) > 3e-6):
        obs.bad(f"times:{kind}", f"{kind}: times of the file {t[:5]} are not a subset of the profiles {time[:5]}")
        return
    br, b = ma.asarray(g["beta_raw"]), ma.asarray(g["beta"])
    if br.shape != (len(t), len(z)) or b.shape != br.shape:
        obs.bad(f"shape:{kind}", f"{kind}: {br.shape} {b.shape} {len(t)} {len(z)}")
        return
    obs.n("pixels", b.size)
    bm = ma.getmaskarray(b)
    # kept values are the raw ones
    for k, r in (("beta", "beta_raw"), ("depolarisation", "depolarisation_raw")):
        if k not in g:
            continue
        x, y = ma.asarray(g[k]), ma.asarray(g[r])
        bad = ~ma.getmaskarray(x) & (ma.getmaskarray(y) | ~np.isclose(ma.getdata(x), ma.getdata(y), rtol=1e-5, atol=1e-30))
        if bad.any():
            i = tuple(int(j) for j in np.argwhere(bad)[0])
            obs.bad(f"altered:{k}:{kind}", f"{kind}: {k}{list(i)} = {x[i]!r} but {r} = {y[i]!r} ({int(bad.sum())} pixels)")
    v = ma.getdata(b)[~bm]
    low = v < 0 if kind in ("pollyxt", "ct25k") else v <= 0
    if low.any() or not np.isfinite(v).all():
        obs.bad(f"not-positive:{kind}", f"{kind}: beta {v[low | ~np.isfinite(v)][0]!r} is not positive and finite")
    e = raw[idx]
    dv = ~ma.getmaskarray(e) & (ma.getmaskarray(br) | (np.abs(ma.getdata(br) - ma.getdata(e)) > 1e-5 * np.abs(ma.getdata(e)) + 1e-30))
    if kind == "ct25k":
        dv[:] = False
    if dv.any():
        i = tuple(int(j) for j in np.argwhere(dv)[0])
        obs.bad(f"raw:{kind}", f"{kind}: beta_raw{list(i)} = {br[i]!r}, file backscatter times calibration factor {e[i]!r}")
        return
    if kind == "pollyxt":
        for k in ("beta", "depolarisation"):
            x, y = ma.asarray(g[k]), ma.asarray(exp[k])[idx]
            obs.n("judged_kept", int((~ma.getmaskarray(y)).sum()))
            obs.n("judged_masked", int(ma.getmaskarray(y).sum()))
            obs.n("depol" if k[0] == "d" else "files_polly", int((~ma.getmaskarray(y)).sum()) if k[0] == "d" else 1)
            w = ma.getmaskarray(x) != ma.getmaskarray(y)
            if w.any():
                i = tuple(int(j) for j in np.argwhere(w)[0])
                obs.bad(f"screen:{k}:{kind}", f"pollyxt: {k}{list(i)} {'missing' if ma.getmaskarray(x)[i] else 'present'}, raw {y.data[i]!r} ({int(w.sum())} pixels)")
        return
    if kind == "ct25k":
        return
    md = Model(raw, z, time, kind, fmt.site.get("range_corrected", True), getattr(fmt, "old", False))
    obs.n("uncorrected", int(not md.corr))
    obs.n("calibrated", int(fmt.cal is not None))
    keep, un, k2, u2, fl = final(md, kind)
    obs.n("negative_profiles", int(fl["neg"].sum()))
    obs.n("fog_profiles", int(fl["fog"].sum()))
    obs.n("plain_profiles", int((~fl["neg"] & ~fl["fog"]).sum()))
    obs.n("missing_raw", int(ma.getmaskarray(raw).sum()))
    # profiles dropped because of the sun
    drop, close = beams(keep, un, z)
    there = np.zeros(len(time), bool)
    there[idx] = True
    obs.n("sunbeam_profiles", int(drop.sum()))
    wrong = (there == drop) & ~close
    if wrong.any():
        i = int(np.where(wrong)[0][0])
        obs.bad(f"sunbeam:{kind}", f"{kind}: profile {i} ({scenes[i]}) is {'kept' if there[i] else 'dropped'}, in the model {'dropped' if drop[i] else 'kept'}")
    for name, kk, uu in (("beta", keep, un), ("beta_smooth", k2, u2)):
        x = ma.asarray(g[name])
        sure = ~uu[idx]
        obs.n("judged_kept", int((sure & kk[idx]).sum()))
        obs.n("judged_masked", int((sure & ~kk[idx]).sum()))
        obs.n("not_judged", int((~sure).sum()))
        w = sure & (ma.getmaskarray(x) == kk[idx])
        if w.any():
            i = tuple(int(j) for j in np.argwhere(w)[0])
            q = int(idx[i[0]])
            obs.bad(f"screen:{name}:{kind}", f"{kind}: {name}[{q},{i[1]}] (range {z[i[1]]:.0f} m, {scenes[q]}) is {'missing' if ma.getmaskarray(x)[i] else 'present'}, "
                    f"raw {raw[q, i[1]]!r} smooth {md.sm[q, i[1]]!r} negative={fl['neg'][q]} fog={fl['fog'][q]} ({int(w.sum())} of {w.size} pixels)")
    x = ma.asarray(g["beta_smooth"])
    sm = md.sm[idx]
    w = ~ma.getmaskarray(x) & ~u2[idx] & (np.abs(ma.getdata(x) - sm) > 1e-4 * np.abs(sm) + 1e-6 * np.abs(sm).max())
    if w.any():
        i = tuple(int(j) for j in np.argwhere(w)[0])
        obs.bad(f"smooth:{kind}", f"{kind}: beta_smooth{list(i)} = {x[i]!r}, expected {sm[i]!r} ({int(w.sum())} pixels)")
    # independent of the model
    u = np.where(ma.getmaskarray(raw), np.nan, ma.getdata(raw)) / md.r2
    top = round(u.shape[1] * .1)
    with np.errstate(all="ignore"):
        sd = np.nanstd(u[:, -top:], axis=1)
        strong = (u > 2e-5) & (ma.getdata(raw) > 1.2e-6) & (u > 100 * sd[:, None])
    strong &= ~fl["dead"][:, None] & ~np.isnan(ma.getdata(raw)) & ~ma.getmaskarray(raw)
    obs.n("strong", int(strong[idx].sum()))
    w = strong[idx] & bm
    if w.any():
        i = tuple(int(j) for j in np.argwhere(w)[0])
        obs.bad(f"strong-signal-lost:{kind}", f"{kind}: beta{list(i)} is missing, raw {br[i]!r} is more than 100 times the noise")
    noise = np.array([s == "noise" for s in scenes])[idx] & md.corr & ~fl["fog"][idx]
    far = slice(110, None)
    for q in np.where(noise)[0]:
        k = idx[q]
        nb = [scenes[j] for j in range(max(0, k - md.reach[0]), min(len(scenes), k + md.reach[0] + 1))]
        if set(nb) != {"noise"} or un[k].any():
            continue
        obs.n("noise_pixels", int((~bm[q, far]).size))
        c = int((~bm[q, far]).sum())
        if c > 3:
            obs.bad(f"noise-kept:{kind}", f"{kind}: {c} pixels of pure noise kept in profile {k}")
    if "depolarisation" in g:
        x, y = ma.asarray(g["depolarisation"]), ma.asarray(g["depolarisation_raw"])
        want = ~bm & ~ma.getmaskarray(y) & (ma.getdata(y) > 0) & (ma.getdata(y) <= 1)
        obs.n("depol", int(want.sum()))
        edge = np.isclose(ma.getdata(y), 1, rtol=1e-6)
        w = (want == ma.getmaskarray(x)) & ~edge
        if w.any():
            i = tuple(int(j) for j in np.argwhere(w)[0])
            obs.bad(f"screen:depolarisation:{kind}", f"{kind}: depolarisation{list(i)} is {'missing' if ma.getmaskarray(x)[i] else 'present'}, beta {b[i]!r}, raw {y[i]!r}")

def calibrated(obs, rng, fmt, kind, arg, nc, tmp):
    """another calibration factor multiplies the raw backscatter of the same file"""
    f = float(rng.choice([.5, 2, 3.7]))
    keep = dict(fmt.site)
    fmt.site["calibration_factor"] = fmt.factor * f
    out = f"{tmp}/cal.nc"
    fmt.run(arg, out)
    n2 = tc.read(out)
    fmt.site = keep
    a, b = nc["vars"], n2["vars"]
    obs.n("calibrated")
    ta, tb = np.asarray(a["time"]), np.asarray(b["time"])
    common = np.intersect1d(ta, tb)
    ia, ib = np.isin(ta, common), np.isin(tb, common)
    x, y = ma.asarray(a["beta_raw"])[ia], ma.asarray(b["beta_raw"])[ib]
    w = (ma.getmaskarray(x) != ma.getmaskarray(y)) | ~np.isclose(x.filled(0) * f, y.filled(0), rtol=1e-5, atol=1e-30)
    if w.any():
        i = tuple(int(j) for j in np.argwhere(w)[0])
        obs.bad(f"calibration:{kind}", f"{kind}: factor {f} gives beta_raw{list(i)} {y[i]!r} instead of {f} * {x[i]!r}")
    if "depolarisation_raw" in a:
        x, y = ma.asarray(a["depolarisation_raw"])[ia], ma.asarray(b["depolarisation_raw"])[ib]
        obs.check(np.array_equal(x.filled(-9), y.filled(-9)), f"calibration-depol:{kind}", f"{kind}: raw depolarisation changes with the calibration factor")
    ca, cb = float(ma.asarray(a["calibration_factor"]).ravel()[0]), float(ma.asarray(b["calibration_factor"]).ravel()[0])
    obs.check(np.isclose(ca * f, cb, rtol=1e-5), f"calibration-factor:{kind}", f"{kind}: calibration_factor {cb} in the file, {ca * f} given")
