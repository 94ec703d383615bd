"""C06: quality bits of a categorize file against what the file and its inputs hold."""
import numpy as np
from numpy import ma

from .. import gen, refclass
from ..catmodel import Inputs
from ..runner import Obs
from . import c05

ID, LEVEL = "C06", "exploration"
RULE = ("random scenes (with/without microwave radiometer and disdrometer, gaps in both, LWP partly missing, rain with missing or zero rate, clutter in dry and rainy "
        "profiles, melting layers) through the categorize step; every quality bit recomputed from the file's own fields, the category bits and the inputs; "
        "non-trivial if an attenuation bit was set; distinct by scene")
ASSUMPTIONS = ["clutter velocity limit is compared on the stored 32-bit velocity with a small tolerance"]
NAMES = ("radar", "lidar", "clutter", "molecular", "att_liquid", "cor_liquid", "att_rain", "cor_rain", "att_melting", "cor_melting")
MIN = {"pixels": 100000, "radar": 30000, "lidar": 30000, "clutter": 500, "att_liquid": 10000, "cor_liquid": 5000,
       "att_rain": 10000, "cor_rain": 5000, "att_melting": 3000, "cor_melting": 2000, "uncorrected_liquid": 1000,
       "uncorrected_rain": 1000, "uncorrected_melting": 200, "slow_low_rainy": 20}


def cases(tier, seed):
    n = 288 if tier == "quick" else 1200
    return [{"seed": seed * 100000 + i, "v": i % 12} for i in range(n)]


def run_case(spec, tmp):
    from cloudnetpy.categorize import generate_categorize
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    v = spec["v"]
    o = {"clutter": True, "p_rain": 0.9, "tsurf": [285.0, 280.0, 292.0, 270.0][v % 4], "disdro": v % 3 != 1, "mwr": v % 4 != 3,
         "dgaps": 3 if v in (2, 6) else 1}
    S = gen.scene(rng, **o)
    if v in (5, 6):
        c05.tune(S, 1, rng)
    if v in (2, 7):  # slow echoes near the ground also in rain
        R = S["radar"]
        m = (rng.random(R["v"].shape) < 0.25) & (np.arange(R["v"].shape[1]) < 9)[None, :]
        x = R["v"].data.copy()
        x[m] = rng.normal(0, 0.01, int(m.sum()))
        R["v"] = ma.array(x, mask=ma.getmaskarray(R["v"]))
        S["rain_clutter"] = True
    if v in (8, 9) and "mwr" in S:
        M = S["mwr"]
        k = len(M["time"])
        M["lwp"][k // 3:k // 2] = ma.masked
        if v == 9:
            M["lwp_quality_flag"] = (np.arange(k) > 0.8 * k).astype("i4")
    if v in (0, 6) and "disdrometer" in S:
        D = S["disdrometer"]
        k = len(D["time"])
        D["rainfall_rate"][k // 2:k // 2 + max(4, k // 4)] = ma.masked
        if v == 6:
            D.pop("synop_WaWa", None)
    files = gen.write_scene(S, tmp)
    out = f"{tmp}/cat.nc"
    generate_categorize(files, out)
    f, _ = gen.read(out)
    compare(obs, f, files)
    obs.sig = f"{v}-{S['kind']}-{len(f['time'])}-{obs.counts.get('att_liquid', 0)}"
    obs.nontrivial = sum(obs.counts.get(k, 0) for k in ("att_liquid", "att_rain", "att_melting")) > 0
    obs.sample = {"seed": spec["seed"], "variant": v, **{k: obs.counts.get(k, 0) for k in NAMES}}
    return obs


def compare(obs, f, files):
    B, _ = c05.decode(f)
    q = np.array(ma.filled(f["quality_bits"], 0)).astype(int)
    Q = {k: ((q >> i) & 1) > 0 for i, k in enumerate(NAMES)}
    obs.n("pixels", q.size)
    for k in NAMES:
        obs.n(k, Q[k].sum())
    obs.check(not ma.getmaskarray(f["quality_bits"]).any(), "bits-missing")
    shape = q.shape
    present = {k: ~ma.getmaskarray(f[k]) for k in ("Z", "beta")}
    rainy = np.array(ma.filled(f["rain_detected"], 0)).astype(bool)
    up = refclass.up

    def same(key, got, exp, skip=None):
        d = got != exp
        if skip is not None:
            d &= ~skip
        obs.check(not d.any(), key, lambda: f"{int(d.sum())} pixels, first {np.argwhere(d)[0].tolist()} bit={int(got[d][0])}")
    same("radar-bit", Q["radar"], present["Z"])
    same("lidar-bit", Q["lidar"], present["beta"])
    same("undefined-bits", q >> len(NAMES), np.zeros_like(q))
    same("molecular-bit", Q["molecular"], np.zeros(shape, bool))
    R = np.tile(rainy[:, None], (1, shape[1]))
    # attenuation
    wet = up(B["droplet"])
    same("att-liquid", Q["att_liquid"], wet & ~R)
    lwp = f["lwp"] if "mwr" in files else ma.masked_all(shape[0])
    lm = ma.getmaskarray(lwp)[:, None]
    same("cor-liquid", Q["cor_liquid"], wet & ~R & ~lm)
    same("att-rain", Q["att_rain"], R)
    if "disdrometer" in files:
        rate = f["rainfall_rate"]
        rm = ma.getmaskarray(rate)[:, None]
        zero = (np.array(rate.filled(0)) == 0)[:, None] & ~rm
        same("cor-rain", Q["cor_rain"], R & ~rm)
        am = B["freezing"] & R & ~zero
        same("att-melting", Q["att_melting"], am)
        same("cor-melting", Q["cor_melting"], am & ~rm)
    else:
        same("cor-rain", Q["cor_rain"], np.zeros(shape, bool))
        same("att-melting", Q["att_melting"], B["freezing"] & R & up(B["melting"]))
        same("cor-melting", Q["cor_melting"], np.zeros(shape, bool))
    for k in ("liquid", "rain", "melting"):
        same(f"corrected-but-not-attenuated-{k}", Q[f"cor_{k}"] & ~Q[f"att_{k}"], np.zeros(shape, bool))
        obs.n(f"uncorrected_{k}", (Q[f"att_{k}"] & ~Q[f"cor_{k}"]).sum())
        # an applied correction is visible in the file; the flag must not claim one that was not applied
        a = ~ma.getmaskarray(f[f"radar_{k}_atten"])
        same(f"applied-but-not-flagged-{k}", a & ~Q[f"cor_{k}"], np.zeros(shape, bool))
    a = ~ma.getmaskarray(f["radar_liquid_atten"])
    same("flagged-but-not-applied-liquid", Q["cor_liquid"] & ~a, np.zeros(shape, bool))
    # clutter
    v = f["v"]
    low = np.zeros(shape, bool)
    low[:, :10] = True
    av = np.abs(np.array(v.filled(99), dtype="f8"))
    tie = np.abs(av - 0.05) < 1e-5
    cand = low & (av < 0.05) & ~R
    obs.n("slow_low_rainy", (low & (av < 0.05) & R & present["Z"]).sum())
    same("clutter-outside", Q["clutter"] & ~cand, np.zeros(shape, bool), tie)
    wetfall = B["droplet"] | B["falling"]
    pad = np.pad(wetfall, 1)
    near = wetfall | pad[2:, 1:-1] | pad[:-2, 1:-1] | pad[1:-1, 2:] | pad[1:-1, :-2]
    # a single pass removes clutter next to droplets or falling; removed pixels become falling
    same("clutter-on-hydrometeor", Q["clutter"] & wetfall, np.zeros(shape, bool))
    lonely = cand & ~near & ~tie
    same("clutter-missed", Q["clutter"] & lonely, lonely)
