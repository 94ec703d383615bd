"""C08: target classification and status fields as functions of the bits."""
import numpy as np
from numpy import ma

from .. import catgen, gen
from ..runner import Obs

ID, LEVEL = "C08", "exploration"
RULE = ("categorize files holding the exhaustive product of all 6 category and 10 quality bits (65536 combinations, four files), random-bit files, layered scenes and "
        "files made by the real categorize step, both radar bands, with and without attenuation, LWP and rain variables; every status pixel recomputed per pixel; "
        "non-trivial if at least five target classes occurred; distinct by mode and seed")
ASSUMPTIONS = ["attenuation sums within 1e-4 dB of a class limit are not judged"]
MIN = {"pixels": 300000, "combinations": 65536, "severe": 2000, "undetected": 2000, "uncorrected": 2000, "moderate": 1500, "files": 30,
       "real": 8, "no_atten_var": 3}


def cases(tier, seed):
    n = 280 if tier == "quick" else 900
    out = [{"seed": seed * 100000 + i, "m": "sweep", "part": i} for i in range(4)]
    for i in range(4, n):
        out.append({"seed": seed * 100000 + i, "m": ("random", "layered", "real", "layered")[i % 4], "i": i})
    return out


def target(droplet, falling, freezing, melting, aerosol, insect, clutter):
    if clutter and not aerosol:
        return 0
    if insect and not clutter:
        return 10 if aerosol else 9
    if aerosol:
        return 8
    if melting:
        return 7 if droplet else 6
    if falling:
        return (5 if droplet else 4) if freezing else (3 if droplet else 2)
    return 1 if droplet else 0


def att_state(q):
    pairs = [(q["att_liquid"], q["cor_liquid"]), (q["att_rain"], q["cor_rain"]), (q["att_melting"], q["cor_melting"])]
    att = any(a for a, _ in pairs)
    return att, att and all(c for a, c in pairs if a)


def detection(q):
    att, cor = att_state(q)
    if q["molecular"] and not q["radar"]:
        return 9
    if q["clutter"]:
        return 8
    if q["radar"]:
        if att:
            return 7 if cor else 2
        return 3 if q["lidar"] else 5
    if att:
        return 6 if cor else 4
    return 1 if q["lidar"] else 0


def source(q):
    return {(1, 1): 1, (1, 0): 2, (0, 1): 3, (0, 0): 0}[(int(q["radar"]), int(q["lidar"]))]


_T = np.zeros(65536, int)
_D = np.zeros(65536, int)
_S = np.zeros(65536, int)
_U = np.zeros(65536, bool)
for _k in range(1024):
    _q = {n: bool((_k >> i) & 1) for i, n in enumerate(catgen.QUA)}
    _d, _s = detection(_q), source(_q)
    _a, _c = att_state(_q)
    for _j in range(64):
        _b = {n: bool((_j >> i) & 1) for i, n in enumerate(catgen.CAT)}
        _T[_k * 64 + _j] = target(clutter=_q["clutter"], **_b)
        _D[_k * 64 + _j], _S[_k * 64 + _j], _U[_k * 64 + _j] = _d, _s, _a and not _c


def att_status(f, code):
    nt, nh = f["quality_bits"].shape
    Q = catgen.unpack(f["quality_bits"], catgen.QUA)

    def g(k):
        return np.array(ma.filled(f[k], 0), "f4") if k in f else np.zeros((nt, nh), "f4")
    tot = g("radar_liquid_atten") + g("radar_rain_atten") + g("radar_melting_atten")
    sev_t = np.zeros(nt, bool)
    tie = np.abs(tot - 10) < 1e-4
    tie |= np.abs(tot - 15) < 1e-4
    if float(f["radar_frequency"]) >= 90:
        if "lwp" in f:
            sev_t |= np.array(ma.filled(f["lwp"], 0)) > 1
        if "rainfall_rate" in f:
            sev_t |= np.array(ma.filled(f["rainfall_rate"], 0), "f8") * 3.6e6 > 3
    out = np.zeros((nt, nh), int)
    for i in range(nt):
        seen = False
        for j in range(nh):
            if Q["radar"][i, j]:
                if _U[code[i, j]]:
                    out[i, j] = 5
                elif tot[i, j] > 15 or sev_t[i]:
                    out[i, j] = 4
                    seen = True
                    continue
                elif tot[i, j] >= 10:
                    out[i, j] = 3
                elif tot[i, j] > 0:
                    out[i, j] = 2
                else:
                    out[i, j] = 1
            if seen:
                out[i, j] = 6
    tie = np.maximum.accumulate(tie, axis=1)
    return out, tie


def cls(f):
    code = np.array(ma.filled(f["quality_bits"], 0)).astype(int) % 1024 * 64 + np.array(ma.filled(f["category_bits"], 0)).astype(int) % 64
    return code, _T[code]


def run_case(spec, tmp):
    from cloudnetpy.products import generate_classification
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    o = {"part": spec.get("part", 0)}
    cat = catgen.cat_file(rng, spec, tmp, **o)
    out = f"{tmp}/cls.nc"
    generate_classification(cat, out)
    f, _ = gen.read(cat)
    p, _ = gen.read(out)
    obs.n("files")
    obs.n("real", spec["m"] == "real")
    obs.n("no_atten_var", any(f"radar_{k}_atten" not in f for k in ("liquid", "rain", "melting")))
    code, exp = cls(f)
    if spec["m"] == "sweep":
        obs.n("combinations", len(np.unique(code)))
    obs.n("pixels", code.size)

    def same(key, got, exp, skip=None):
        obs.check(not ma.getmaskarray(got).any(), key + "-unclassified", lambda: f"{int(ma.getmaskarray(got).sum())} pixels without status")
        d = np.array(ma.filled(got, -9)).astype(int) != exp
        if skip is not None:
            d &= ~skip
        obs.check(not d.any(), key, lambda: (
            f"{int(d.sum())} pixels, first {np.argwhere(d)[0].tolist()} got {int(ma.filled(got, -9)[d][0])} expected {int(exp[d][0])} "
            f"category={int(code[d][0]) % 64:06b} quality={int(code[d][0]) // 64:010b}"))
    same("target", p["target_classification"], exp)
    same("detection", p["detection_status"], _D[code])
    same("signal-source", p["signal_source_status"], _S[code])
    a, tie = att_status(f, code)
    for k, n in ((4, "severe"), (6, "undetected"), (5, "uncorrected"), (3, "moderate"), (2, "small")):
        obs.n(n, (a == k).sum())
    same("radar-attenuation", p["radar_attenuation_status"], a, tie)
    for k in ("time", "height", "latitude", "longitude", "altitude", "rain_detected"):
        if not obs.check(k in p, f"copied-missing-{k}"):
            continue
        x, y = ma.getmaskarray(f[k]), ma.getmaskarray(p[k])
        obs.check(p[k].shape == f[k].shape and (x == y).all() and (ma.filled(f[k], 0) == ma.filled(p[k], 0)).all(), f"copied-{k}",
                  lambda: f"{k} differs from the categorize file")
    nclass = len(np.unique(exp))
    obs.nontrivial = nclass >= 5
    obs.sig = f"{spec['m']}-{spec['seed']}"
    obs.sample = {"mode": spec["m"], "shape": list(code.shape), "classes": nclass}
    return obs
