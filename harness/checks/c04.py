"""C04: attenuation corrections of a categorize file against an independent computation."""
import numpy as np
from numpy import ma

from .. import gen
from ..catmodel import GRID, Inputs
from ..runner import Obs
from . import c01

ID, LEVEL = "C04", "exploration"
RULE = ("random scenes (Ka and W band, with/without microwave radiometer and disdrometer, gaps in both, several droplet "
        "layers, rain, melting layers, sites up to 1.9 km) through the categorize step; all four corrections, quality bits, Z and Z_error recomputed from "
        "inputs and stored bits; non-trivial if a liquid, rain or melting correction was compared; distinct by scene")
ASSUMPTIONS = ["atmoslib (third-party) gives specific attenuations and the adiabatic gradient",
               "either diagonal of a model grid cell is an acceptable linear interpolation"]
MIN = {"sensitivity": 3000, "clutter_gates": 60, "pix_gas": 30000, "pix_liquid": 2000, "pix_rain": 2000, "pix_melting": 500, "pix_uncorrected": 1000,
       "rainy_without_rate": 1}
M_S_TO_MM_H = 3.6e6


def cases(tier, seed):
    n = 252 if tier == "quick" else 1000
    return [{"seed": seed * 100000 + i, "v": i % 14} for i in range(n)]


def run_case(spec, tmp):
    from cloudnetpy.categorize import generate_categorize
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    v = spec["v"]
    o = {"p_rain": 0.9, "tsurf": [285.0, 279.0, 285.0, 296.0][v % 4], "disdro": v % 3 != 2, "mwr": v % 5 != 4,
         "dgaps": 4 if v in (3, 6) else 1}
    if v % 4 == 3:
        o["dz"] = 120.0
        o["ng"] = 70
    S = gen.scene(rng, **o)
    if v in (1, 8):  # two droplet layers
        L = S["lidar"]
        r = L["range"]
        p = (np.abs(r - (S["liq_b"] + 900)) < 60)
        b = np.array(L["beta"].filled(0))
        b[:, p] = 6e-5
        b[:, np.abs(r - (S["liq_b"] + 60)) < 60] = 8e-5
        L["beta"] = ma.array(b, mask=ma.getmaskarray(L["beta"]) & ~p[None, :])
    if v in (2, 9) and "mwr" in S:
        m = S["mwr"]
        m["lwp"] = m["lwp"] - 0.12  # partly negative LWP
    if v in (6, 13) and "disdrometer" in S:
        D = S["disdrometer"]
        k = len(D["time"])
        a = int(rng.integers(0, max(1, k - 4)))
        D["rainfall_rate"][a:a + max(3, k // 3)] = ma.masked
        D.pop("synop_WaWa", None)
    if v == 10 and "disdrometer" in S:
        S["disdrometer"]["rainfall_rate"][:] = ma.masked
        S["disdrometer"].pop("synop_WaWa", None)
    files = gen.write_scene(S, tmp)
    out = f"{tmp}/cat.nc"
    generate_categorize(files, out)
    compare(obs, files, out)
    obs.sig = f"{v}-{S['kind']}-{len(S['radar']['time'])}-{len(S['radar']['range'])}"
    obs.nontrivial = obs.counts.get("pix_liquid", 0) + obs.counts.get("pix_rain", 0) + obs.counts.get("pix_melting", 0) > 0
    obs.sample = {"seed": spec["seed"], "variant": v, "liquid": obs.counts.get("pix_liquid", 0),
                  "rain": obs.counts.get("pix_rain", 0), "melting": obs.counts.get("pix_melting", 0)}
    return obs


def ffill_above(b):
    return np.maximum.accumulate(b, axis=1)


def layers(b):
    """Index of the base gate for every true pixel (column-wise runs)."""
    base = np.zeros(b.shape, int)
    cur = np.zeros(b.shape[0], int)
    for j in range(b.shape[1]):
        start = b[:, j] & (~b[:, j - 1] if j > 0 else True)
        cur = np.where(start, j, cur)
        base[:, j] = cur
    return base


def within(obs, key, got, mask, lo, hi, rtol, atol):
    g = np.array(got.filled(0), dtype="f8")
    tol = atol + rtol * np.abs(hi)
    bad = mask & ~((g >= lo - tol) & (g <= hi + tol))
    obs.check(not bad.any(), key, lambda: f"{int(bad.sum())} of {int(mask.sum())} pixels; first {np.argwhere(bad)[0].tolist()} "
              f"file={g[bad][0]:.6g} expected {lo[bad][0]:.6g}..{hi[bad][0]:.6g}")


def compare(obs, files, out):
    import atmoslib
    I = Inputs(files)
    o, _ = gen.read(out)
    x = GRID[np.round(np.array(o["time"], dtype="f8") * 120 - 0.5).astype(int)]
    cat = np.array(o["category_bits"]).astype(int)
    qual = np.array(o["quality_bits"]).astype(int)
    drop, freez = (cat & 1) > 0, (cat & 4) > 0
    melt = (cat & 8) > 0
    rainy = np.array(o["rain_detected"]).astype(bool)
    shape = cat.shape
    dz = np.diff(I.agl, prepend=0)
    dzk = dz / 1000
    f = float(I.d["radar"]["radar_frequency"])
    A = {k: o[f"radar_{k}_atten"] for k in ("gas", "liquid", "rain", "melting")}
    m = {k: ma.getmaskarray(a) for k, a in A.items()}
    D = I.dense(x, ("gas", "gas_sat", "liq"), half=True)
    P = I.dense(x, ("temperature", "pressure"))
    # ---- gas
    cand = [np.where(drop, D["gas_sat"][i], D["gas"][i]) for i in (0, 1)]
    sp = np.abs(cand[0] - cand[1])
    lo = 2 * np.cumsum((np.minimum(*cand) - 1.5 * sp) * dzk, 1)
    hi = 2 * np.cumsum((np.maximum(*cand) + 1.5 * sp) * dzk, 1)
    obs.check(not m["gas"].any(), "gas-missing", lambda: f"{int(m['gas'].sum())} missing")
    obs.n("pix_gas", cat.size)
    within(obs, "gas-value", A["gas"], ~m["gas"], lo, hi, 5e-3, 1e-5)
    g = np.array(A["gas"].filled(0), dtype="f8")
    obs.check(bool((np.diff(g, axis=1) >= -1e-6).all() and (g >= 0).all()), "gas-not-monotone")
    # ---- liquid
    above = ffill_above(drop)
    has_mwr = "mwr" in files
    lwp = o["lwp"] if has_mwr else ma.masked_all(shape[0])
    lm = ma.getmaskarray(lwp)
    expect = above & ~rainy[:, None] & ~lm[:, None]
    bad = (m["liquid"] == expect)
    obs.check(not bad.any(), "liquid-mask", lambda: f"{int(bad.sum())} pixels first {np.argwhere(bad)[0].tolist()} expected-corrected={expect[bad][0]}")
    base = layers(drop)
    lw = np.maximum(np.array(lwp.filled(0), dtype="f8"), 0)
    lwe = np.array(o["lwp_error"].filled(0), dtype="f8") if has_mwr else np.zeros(shape[0])
    cs = np.cumsum(dz)
    above_base = cs[None, :] - np.where(base > 0, cs[base - 1], 0)  # path from the bottom of the base gate
    liq, liqe = [], []
    for i in (0, 1):
        T, p = P["temperature"][i], P["pressure"][i]
        rows = np.arange(shape[0])[:, None]
        grad = np.array(atmoslib.adiabatic_lwc_gradient(T[rows, base], p[rows, base]))
        ad = np.where(drop, grad * above_base, 0)
        tot = (ad * dz).sum(1)
        lwc = ad * (lw / np.where(tot > 0, tot, 1))[:, None]
        gr = np.where(drop, grad, 0)
        tote = (gr * dz).sum(1)
        lwce = gr * (lwe / np.where(tote > 0, tote, 1))[:, None]
        liq.append(2 * np.cumsum(D["liq"][i] * lwc * 1000 * dzk, 1))
        liqe.append(2 * np.cumsum(D["liq"][i] * lwce * 1000 * dzk, 1))
    sp = np.abs(liq[0] - liq[1])
    both = expect & ~m["liquid"]
    obs.n("pix_liquid", both.sum())
    within(obs, "liquid-value", A["liquid"], both, np.minimum(*liq) - sp, np.maximum(*liq) + sp, 2e-2, 1e-5)
    # column closure: for a warm-cloud constant coefficient the total is within its extreme coefficients
    # ---- rain
    rr = o["rainfall_rate"] if "disdrometer" in files else ma.masked_all(shape[0])
    rm = ma.getmaskarray(rr)
    rv = np.array(rr.filled(0), dtype="f8")
    if "disdrometer" in files:
        spec = np.array(atmoslib.rain_specific_attenuation(np.where(rm, 0.0, rv) * M_S_TO_MM_H, f), dtype="f8")
    else:
        spec = np.zeros(shape[0])
    cum = 2 * spec[:, None] * np.cumsum(dzk)[None, :]
    ind = ~freez & rainy[:, None] & ~rm[:, None]
    # freezing starts at one level: below it induces, above carries the accumulated value
    e = np.where(ind, cum, 0)
    e = np.maximum.accumulate(e, axis=1)
    expect_r = e > 1e-9
    near0 = (e > 0) & (e < 1e-6)
    obs.n("rainy_without_rate", int((rainy & rm).sum()) if "disdrometer" in files else 0)
    bad = (m["rain"] == expect_r) & ~near0
    obs.check(not bad.any(), "rain-mask", lambda: f"{int(bad.sum())} pixels first {np.argwhere(bad)[0].tolist()} file={A['rain'][tuple(np.argwhere(bad)[0])]} "
              f"expected={e[bad][0]:.4g} rate={rr[np.argwhere(bad)[0][0]]} rainy={rainy[np.argwhere(bad)[0][0]]}")
    both = expect_r & ~m["rain"]
    obs.n("pix_rain", both.sum())
    within(obs, "rain-value", A["rain"], both, e, e, 2e-3, 1e-6)
    # ---- melting
    band = "Ka" if f < 60 else "W"
    a_, b_ = {"Ka": (0.97, 0.61), "W": (2.9, 0.42)}[band]
    ml = a_ * np.power(np.maximum(rv, 0) * M_S_TO_MM_H, b_)
    em = np.where(freez & rainy[:, None] & ~rm[:, None], ml[:, None], 0) if "disdrometer" in files else np.zeros(shape)
    expect_m = em > 0
    bad = m["melting"] == expect_m
    obs.check(not bad.any(), "melting-mask", lambda: f"{int(bad.sum())} pixels first {np.argwhere(bad)[0].tolist()} file={A['melting'][tuple(np.argwhere(bad)[0])]} expected={em[bad][0]:.4g}")
    both = expect_m & ~m["melting"]
    obs.n("pix_melting", both.sum())
    within(obs, "melting-value", A["melting"], both, em, em, 2e-3, 1e-6)
    # ---- flags
    bit = lambda n: ((qual >> n) & 1) > 0
    aliq, cliq, arain, crain, amelt, cmelt = (bit(n) for n in range(4, 10))

    def same(key, got, exp):
        d = got != exp
        obs.n("flag_pixels", d.size)
        obs.check(not d.any(), key, lambda: f"{int(d.sum())} pixels first {np.argwhere(d)[0].tolist()} file={got[d][0]}")
    same("flag-attenuated-liquid", aliq, above & ~rainy[:, None])
    same("flag-corrected-liquid", cliq, expect)
    same("flag-attenuated-rain", arain, np.tile(rainy[:, None], (1, shape[1])))
    if "disdrometer" in files:
        exp_cr = np.tile((rainy & ~rm)[:, None], (1, shape[1]))
        same("flag-corrected-rain", crain, exp_cr)
        zero_rate = (rv * M_S_TO_MM_H == 0) | rm
        same("flag-corrected-melting", cmelt, expect_m)
        # attenuated-by-melting: freezing part of rainy profiles; with a zero rate nothing attenuates
        am = freez & rainy[:, None] & ~(zero_rate & ~rm)[:, None]
        same("flag-attenuated-melting", amelt, am)
    else:
        same("flag-corrected-rain", crain, np.zeros(shape, bool))
        same("flag-corrected-melting", cmelt, np.zeros(shape, bool))
        same("flag-attenuated-melting", amelt, freez & rainy[:, None] & ffill_above(melt))
    # ---- Z = averaged Z + corrections
    c01.compare(obs, files, out)
    # ---- Z_error
    unc = (aliq & ~cliq) | (arain & ~crain) | (amelt & ~cmelt)
    Z = o["Z"]
    zm = ma.getmaskarray(Z)
    ze = o["Z_error"]
    zem = ma.getmaskarray(ze)
    obs.n("pix_uncorrected", int((unc & ~zm).sum()))
    bad = ~zm & unc & ~zem
    obs.check(not bad.any(), "error-for-uncorrected", lambda: f"{int(bad.sum())} pixels first {np.argwhere(bad)[0].tolist()}")
    bad = ~zm & ~unc & zem
    obs.check(not bad.any(), "error-missing", lambda: f"{int(bad.sum())} pixels first {np.argwhere(bad)[0].tolist()}")
    zp = np.array(Z.filled(0), dtype="f8") - 20 * np.log10(I.rng)[None, :]
    if (~zm).sum() > 0:
        zmin = np.percentile(zp[~zm], 0.1)
        w = np.array(o["width"].filled(0.3), dtype="f8") if "width" in o else np.full(shape, 0.3)
        dwell = np.median(np.diff(np.array(o["time"], dtype="f8"))) * 3600
        npulse = 4 * np.sqrt(np.pi) * dwell * w / (299792458.0 / (f * 1e9))
        prec = 10 / np.log(10) / np.sqrt(np.maximum(npulse, 1e-12)) * (1 + 10 ** ((zmin - zp) / 10) / 3)
        le = np.where(expect, 0.5 * (liqe[0] + liqe[1]), 0)
        exp = np.sqrt(prec ** 2 + le ** 2 + (0.2 * np.where(m["rain"], 0, e)) ** 2 +
                      ({"Ka": 0.2, "W": 0.1}[band] * np.where(m["melting"], 0, em)) ** 2)
        both = ~zm & ~zem & (w > 1e-3)
        obs.n("pix_error", both.sum())
        within(obs, "error-value", ze, both, exp, exp, 2e-2, 1e-4)
        # ---- Z_sensitivity: detection limit, raised to the clutter where there is clutter; Z_bias: 1 dB
        if obs.check("Z_sensitivity" in o and o["Z_sensitivity"].shape == I.rng.shape, "sensitivity-missing"):
            sens = zmin + 20 * np.log10(I.rng) + np.array(o["radar_gas_atten"].filled(0), dtype="f8").mean(axis=0)
            cl = bit(2) & ~zm
            for g in np.flatnonzero(cl.any(axis=0)):
                sens[g] = np.median(np.array(Z[:, g].data, dtype="f8")[cl[:, g]])
                obs.n("clutter_gates")
            got = np.array(o["Z_sensitivity"].filled(np.nan), dtype="f8")
            d = ~(np.abs(got - sens) <= 2e-2)
            obs.n("sensitivity", d.size)
            obs.check(not d.any(), "sensitivity-value", lambda: f"{int(d.sum())} gates, first {np.flatnonzero(d)[0]}: file={got[d][0]:.4f} expected={sens[d][0]:.4f}")
        obs.check("Z_bias" in o and np.all(np.abs(np.array(o["Z_bias"], dtype="f8") - 1) < 1e-6), "bias", lambda: str(o.get("Z_bias")))
