"""C11: liquid water content closes the column, rises linearly in each layer, and its status follows the bits."""
import atmoslib
import numpy as np
from numpy import ma

from .. import catgen, gen
from ..runner import Obs

ID, LEVEL = "C11", "exploration"
RULE = ("layered, random-bit and real categorize files with missing, zero, negative and very large LWP, rain, multi-layer columns, layers at the lowest and highest "
        "gate, lidar-only top layers, even and uneven grids; LWC, status and error of every pixel recomputed; non-trivial if a profile was retrieved; distinct by seed")
ASSUMPTIONS = ["adiabatic LWC gradient taken from the atmoslib dependency", "a top layer that starts at the lowest gate is only checked for closure, not for adjustment"]
MIN = {"profiles": 2000, "retrieved": 700, "rain": 200, "missing": 100, "status_2": 300, "status_3": 200, "multi_layer": 300, "top_gate": 10,
       "negative_lwp": 10, "no_lwp_variable": 2, "real": 5}


def cases(tier, seed):
    n = 300 if tier == "quick" else 1200
    return [{"seed": seed * 100000 + i, "m": ("layered", "layered", "random", "layered", "real")[i % 5], "v": i % 13} for i in range(n)]


def run_case(spec, tmp):
    from cloudnetpy.exceptions import InvalidSourceFileError
    from cloudnetpy.products import generate_lwc
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    v = spec["v"]
    o = {"mwr": v != 7}
    if v == 3:
        o["tsurf"] = 296.0
    if spec["m"] != "real":
        o["lwp"] = v != 7
    if v == 5:
        o["rainmask"] = lambda n: np.zeros(n, bool)
        o["p_rain"] = 0.0
    cat = catgen.cat_file(rng, spec, tmp, **o)
    f, _ = gen.read(cat)
    out = f"{tmp}/lwc.nc"
    obs.n("real", spec["m"] == "real")
    if "lwp" not in f:
        obs.n("no_lwp_variable")
        try:
            generate_lwc(cat, out)
            obs.bad("no-lwp-accepted", "a file without liquid water path was processed")
        except InvalidSourceFileError:
            obs.n("assertions")
        import os
        obs.check(not os.path.exists(out), "no-lwp-output", "output written although it failed")
        obs.sig = f"nolwp-{spec['seed']}"
        return obs
    generate_lwc(cat, out)
    p, _ = gen.read(out)
    compare(obs, f, p)
    obs.nontrivial = obs.counts.get("retrieved", 0) > 0
    obs.sig = f"{spec['m']}-{v}-{spec['seed']}"
    obs.sample = {"mode": spec["m"], "variant": v, "retrieved": obs.counts.get("retrieved", 0)}
    return obs


def compare(obs, f, p):
    C, Q = catgen.unpack(f["category_bits"], catgen.CAT), catgen.unpack(f["quality_bits"], catgen.QUA)
    rainy = catgen.is_rain(f)
    h = np.array(f["height"], float)
    alt = ma.asanyarray(f["altitude"])
    hagl = h - (float(np.mean(np.array(alt, "f4"))) if alt.ndim else float(alt))
    dz = np.diff(np.concatenate([[0], hagl]))
    T, P = catgen.interp_model(f, "temperature"), catgen.interp_model(f, "pressure")
    lwpm = ma.getmaskarray(f["lwp"])
    raw = np.array(ma.filled(f["lwp"], 0), float)
    lwp = np.maximum(raw, 0)
    nt, nh = C["droplet"].shape
    g, s, e = p["lwc"], p["lwc_retrieval_status"], p["lwc_error"]
    gm = ma.getmaskarray(g)
    gv = np.array(g.filled(0), float)
    sv = np.array(ma.filled(s, -9)).astype(int)
    obs.check(not ma.getmaskarray(s).any(), "status-missing")
    exp_all = np.zeros((nt, nh))
    for t in range(nt):
        obs.n("profiles")
        lay = catgen.runs(C["droplet"][t])
        if rainy[t] or lwpm[t]:
            obs.n("rain", rainy[t])
            obs.n("missing", lwpm[t])
            obs.check(gm[t].all(), "value-without-retrieval", lambda: f"profile {t}: rain={bool(rainy[t])} lwp missing={bool(lwpm[t])}")
            obs.check((sv[t] == 4).all(), "status-no-retrieval", lambda: f"profile {t}: status {np.unique(sv[t])}")
            obs.check(ma.getmaskarray(e)[t].all(), "error-without-retrieval", f"profile {t}")
            continue
        obs.n("negative_lwp", raw[t] < 0 and bool(lay))
        if not lay:
            obs.check(gm[t].all() or (gv[t] == 0).all(), "value-without-droplets", lambda: f"profile {t}")
            obs.check((sv[t] == 0).all(), "status-without-droplets", lambda: f"profile {t}: {np.unique(sv[t])}")
            continue
        obs.n("retrieved")
        obs.n("multi_layer", len(lay) > 1)
        w = np.zeros(nh)
        base_rate = None
        for a, b in lay:
            base_rate = float(atmoslib.adiabatic_lwc_gradient(T[t, a], P[t, a]))
            w[a:b] = np.cumsum(dz[a:b]) * base_rate
        adi = float((w * dz).sum())
        exp = w * lwp[t] / adi
        exp_all[t] = exp
        obs.check(not gm[t].any(), "missing-value", lambda: f"profile {t}: {int(gm[t].sum())} pixels missing")
        tot = float((gv[t] * dz).sum())
        obs.check(abs(tot - lwp[t]) <= 2e-5 * lwp[t] + 1e-9, "column-closure", lambda: f"profile {t}: integral {tot} lwp {lwp[t]}")
        outside = ~C["droplet"][t] & (gv[t] != 0)
        if not obs.check(not outside.any(), "value-outside-droplets", lambda: f"profile {t} gate {int(np.argmax(outside))}: {gv[t][outside][0]}"):
            continue
        d = np.abs(gv[t] - exp) > 2e-3 * exp + 1e-12
        obs.check(not d.any() and (gv[t] >= 0).all(), "value", lambda: f"profile {t} gate {int(np.argmax(d))}: {gv[t][d][:1]} expected {exp[d][:1]}")
        # status
        a, b = lay[-1]
        top_lid = Q["lidar"][t, a:b].any()
        top_rad = Q["radar"][t, a:b].any()
        st = C["droplet"][t].astype(int)
        obs.n("top_gate", b == nh)
        sure = a > 0
        if not top_lid and not top_rad:
            sure = False
        if sure and top_lid and not top_rad and adi < lwp[t]:
            if abs(adi / lwp[t] - 1) < 1e-5:
                sure = False
            st[C["droplet"][t]] = 2
            x = w.copy()
            for k in range(1, nh - a):
                x[a + k] = w[a] * (k + 1)
                if st[a + k] == 0:
                    st[a + k] = 3
                total = (x * dz).sum()
                if abs(total / lwp[t] - 1) < 1e-5:
                    sure = False
                if total > lwp[t]:
                    break
        if sure:
            for k in (2, 3):
                obs.n(f"status_{k}", (st == k).sum())
            d = sv[t] != st
            obs.check(not d.any(), "status", lambda: f"profile {t} gate {int(np.argmax(d))}: {sv[t][d][0]} expected {st[d][0]} (layers {lay})")
        else:
            obs.check(np.isin(sv[t][C["droplet"][t]], (1, 2)).all(), "status-droplet", lambda: f"profile {t}")
        if lwp[t] > 0:
            obs.check((gv[t][sv[t] == 3] > 0).all(), "status-3-without-lwc", lambda: f"profile {t}: {int((sv[t] == 3).sum())} new cloud pixels without liquid water content")
            obs.check((gv[t][np.isin(sv[t], (1, 2))] > 0).all(), "retrieval-without-lwc", lambda: f"profile {t}")
    # error
    ge = np.gradient(exp_all)
    with np.errstate(all="ignore"):
        rel = np.minimum(np.hypot(*ge) / exp_all / 2, 5)
        lrel = np.array(ma.filled(f["lwp_error"], 0), float) / lwp
        lrel = np.where(lwp > 0, np.minimum(lrel, 10), 0)
    ee = np.hypot(rel, lrel[:, None])
    pres = exp_all > 0
    em = ma.getmaskarray(e)
    d = ~em != pres
    obs.check(not d.any(), "error-presence", lambda: f"{int(d.sum())} pixels, first {np.argwhere(d)[0].tolist()}: {e[d][0]}")
    d = pres & ~em & (np.abs(np.array(e.filled(0), float) - ee) > 0.01 * ee + 1e-6)
    obs.check(not d.any(), "error-value", lambda: f"{int(d.sum())} pixels, first {np.argwhere(d)[0].tolist()}: {e[d][0]} expected {ee[d][0]}")
    for k in ("lwp", "lwp_error"):
        same = (ma.getmaskarray(p[k]) == ma.getmaskarray(f[k])).all() and (ma.filled(p[k], 0) == ma.filled(f[k], 0)).all()
        obs.check(same, f"copied-{k}", f"{k} differs from the categorize file")
