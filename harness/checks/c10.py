"""C10: ice water content and ice effective radius against an independent evaluation of the published relations."""
import numpy as np
from numpy import ma

from .. import catgen, gen
from ..runner import Obs

ID, LEVEL = "C10", "exploration"
RULE = ("exhaustive bit-product, random-bit, layered and real categorize files, Ka and W band, warm and cold columns, missing reflectivity and uncorrected "
        "attenuation; every pixel of both products recomputed; non-trivial if at least 50 pixels carry a value; distinct by mode and seed")
ASSUMPTIONS = ["32-bit storage: values compared to 2e-4 relative"]
MIN = {"pixels": 200000, "iwc_values": 20000, "ier_values": 20000, "status_2": 2000, "status_3": 2000, "status_4": 2000, "status_6": 1000,
       "status_7": 2000, "ka": 20, "w": 20, "real": 5, "warm_ice": 50}
COEF = {("iwc", "Ka"): (0.878, 0.000242, -0.0186, 0.0699, -1.63), ("iwc", "W"): (0.669, 0.000580, -0.00706, 0.0923, -0.992),
        ("ier", "Ka"): (0.878, -0.000205, -0.0015, 0.0016, -1.52), ("ier", "W"): (0.669, -0.000296, -0.00193, 0.0, -1.502)}
RHO_ICE = 917.0


def cases(tier, seed):
    n = 240 if tier == "quick" else 1000
    return ([{"seed": seed * 100000 + i, "m": "sweep", "part": i} for i in range(4)] +
            [{"seed": seed * 100000 + i, "m": ("random", "layered", "layered", "real")[i % 4], "v": i % 7} for i in range(4, n)])


def run_case(spec, tmp):
    from cloudnetpy.products import generate_ier, generate_iwc
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    o = {"part": spec.get("part", 0)}
    if spec.get("v") == 1:
        o["tsurf"] = 262.0
    cat = catgen.cat_file(rng, spec, tmp, **o)
    f, _ = gen.read(cat)
    generate_iwc(cat, f"{tmp}/iwc.nc")
    generate_ier(cat, f"{tmp}/ier.nc")
    obs.n("real", spec["m"] == "real")
    for name in ("iwc", "ier"):
        p, _ = gen.read(f"{tmp}/{name}.nc")
        compare(obs, f, p, name)
    obs.nontrivial = obs.counts.get("iwc_values", 0) > 50
    obs.sig = f"{spec['m']}-{spec['seed']}"
    obs.sample = {"mode": spec["m"], "iwc_values": obs.counts.get("iwc_values", 0)}
    return obs


def compare(obs, f, p, name):
    C, Q = catgen.unpack(f["category_bits"], catgen.CAT), catgen.unpack(f["quality_bits"], catgen.QUA)
    R = catgen.is_rain(f)[:, None]
    ice = C["falling"] & C["freezing"] & ~C["melting"] & ~C["insect"]
    att = Q["att_liquid"] | Q["att_rain"] | Q["att_melting"]
    unc = (Q["att_liquid"] & ~Q["cor_liquid"]) | (Q["att_rain"] & ~Q["cor_rain"]) | (Q["att_melting"] & ~Q["cor_melting"])
    anycor = Q["cor_liquid"] | Q["cor_rain"] | Q["cor_melting"]
    z = f["Z"]
    zm = ma.getmaskarray(z)
    present = ice & ~unc & ~zm
    T = catgen.interp_model(f, "temperature") - 273.15
    freq = float(f["radar_frequency"])
    band = "Ka" if 30 < freq < 40 else "W"
    obs.n(band.lower())
    k2, zt, ct, cz, c0 = COEF[(name, band)]
    zs = np.array(ma.filled(z, 0), float) + 10 * np.log10(k2 / 0.93)
    scale = 1e-3 if name == "iwc" else 3 / (2 * RHO_ICE)
    exp = 10 ** (zt * zs * T + ct * T + cz * zs + c0) * scale
    g = p[name]
    gm = ma.getmaskarray(g)
    obs.n("pixels", gm.size)
    obs.n(f"{name}_values", present.sum())
    obs.n("warm_ice", (present & (T > 0)).sum())

    def where(d):
        return np.argwhere(d)[0].tolist()
    d = ~gm != present
    obs.check(not d.any(), f"{name}-presence", lambda: f"{int(d.sum())} pixels, first {where(d)}: value {g[d][0]}, expected present={bool(present[d][0])}")
    both = present & ~gm
    rel = np.abs(np.array(g.filled(1), float) / exp - 1)
    d2 = both & ~(rel < 3e-4)
    obs.check(not d2.any(), f"{name}-value", lambda: f"{int(d2.sum())} pixels, first {where(d2)}: {g[d2][0]} expected {exp[d2][0]}")
    d3 = both & ~(np.array(g.filled(1)) > 0)
    obs.check(not d3.any(), f"{name}-not-positive", lambda: f"{int(d3.sum())} pixels, first {where(d3)}")
    st = np.zeros(gm.shape, int)
    would = (C["falling"] & ~C["freezing"] & ~C["insect"]) | C["melting"]
    st[would] = 7
    st[R & ~ice & C["freezing"] & ~C["melting"]] = 6
    st[ice] = 4
    st[present] = 1
    st[present & att & anycor] = 3
    st[ice & unc] = 2
    for k in (1, 2, 3, 4, 6, 7):
        obs.n(f"status_{k}", (st == k).sum())
    s = p[f"{name}_retrieval_status"]
    obs.check(not ma.getmaskarray(s).any(), f"{name}-status-missing")
    d4 = np.array(ma.filled(s, -9)).astype(int) != st
    obs.check(not d4.any(), f"{name}-status", lambda: f"{int(d4.sum())} pixels, first {where(d4)}: {s[d4][0]} expected {st[d4][0]}")
    # errors
    e = p[f"{name}_error"]
    em = ma.getmaskarray(e)
    if name == "iwc":
        ze = f["Z_error"]
        present_e = ice & ~unc & ~ma.getmaskarray(ze)
        exp_e = np.hypot(1.7, np.array(ma.filled(ze, 0), float) * (zt * T + cz) * 10)
        bias = float(f["Z_bias"]) * cz * 10
        obs.check(abs(float(p["iwc_bias"]) - bias) < 1e-4 * abs(bias) + 1e-6, "iwc-bias", lambda: f"{p['iwc_bias']} expected {bias}")
        zsens = np.array(ma.filled(f["Z_sensitivity"], np.nan), float) + 10 * np.log10(k2 / 0.93)
        tm = T.mean(axis=0)
        sens = 10 ** (zt * zsens * tm + ct * tm + cz * zsens + c0) * 1e-3
        gs = np.array(ma.filled(p["iwc_sensitivity"], np.nan), float)
        ok = (np.isnan(gs) & np.isnan(sens)) | (np.abs(gs / sens - 1) < 3e-4)
        obs.check(ok.all(), "iwc-sensitivity", lambda: f"gate {int(np.argmin(ok))}: {gs[~ok][0]} expected {sens[~ok][0]}")
    else:
        present_e, exp_e = present, exp * np.sqrt(0.32)
    d5 = ~em != present_e
    obs.check(not d5.any(), f"{name}-error-presence", lambda: f"{int(d5.sum())} pixels, first {where(d5)}")
    d6 = present_e & ~em & ~(np.abs(np.array(e.filled(1), float) / exp_e - 1) < 5e-4)
    obs.check(not d6.any(), f"{name}-error-value", lambda: f"{int(d6.sum())} pixels, first {where(d6)}: {e[d6][0]} expected {exp_e[d6][0]}")
    d7 = (~gm | ~em) & ~ice
    obs.check(not d7.any(), f"{name}-outside-ice", lambda: f"{int(d7.sum())} pixels, first {where(d7)}")
    d8 = gm != em
    if name == "iwc":
        obs.check(not d8.any(), "iwc-error-without-value", lambda: f"{int(d8.sum())} pixels, first {where(d8)}")
