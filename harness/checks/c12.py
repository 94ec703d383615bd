"""C12: droplet effective radius (Frisch) and drizzle retrievals (O'Connor) against independent evaluation."""
import numpy as np
from numpy import ma
from scipy.special import gamma

from .. import catgen, gen, mie
from ..runner import Obs

ID, LEVEL = "C12", "exploration"
RULE = ("layered, random-bit, exhaustive-bit and real categorize files, Ka and W band, even and uneven grids, missing and zero LWP, missing reflectivity inside "
        "layers, missing spectral width, rain, melting; every pixel of both products recomputed; non-trivial if both products hold values; distinct by seed")
ASSUMPTIONS = ["the Mie look-up table is not part of the repository, so the solver runs with a synthetic table of the same layout (redirected when opened)",
               "drizzle values are accepted if they equal the reference for inputs perturbed by up to 3e-6 (table look-up ties)"]
MIN = {"der_values": 5000, "der_layers": 1000, "layer_with_gap": 100, "no_lwp_pixels": 300, "der_status_2": 300, "der_status_3": 300, "der_status_4": 500,
       "drizzle_values": 2000, "drizzle_status_2": 50, "drizzle_status_3": 300, "drizzle_status_4": 300, "drizzle_status_5": 1000, "corrected": 300, "no_width": 5}
COR = 10 / np.log(10)


def cases(tier, seed):
    n = 216 if tier == "quick" else 800
    return ([{"seed": seed * 100000 + i, "m": "sweep", "part": i} for i in range(4)] +
            [{"seed": seed * 100000 + i, "m": ("layered", "random", "layered", "layered", "real")[i % 5], "v": i % 6} for i in range(4, n)])


def run_case(spec, tmp):
    from cloudnetpy.products import generate_der, generate_drizzle
    from cloudnetpy.products.der import Parameters
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    v = spec.get("v", 0)
    o = {"part": spec.get("part", 0), "lwp": True, "no_molecular": v % 2 == 0, "mwr": True}
    if v in (1, 2, 3):
        o["tsurf"] = 298.0
    if spec["m"] == "real":
        cat = catgen.real_categorize(rng, tmp, mwr=True, **({"tsurf": 296.0} if v in (1, 2, 3) else {}))
    else:
        F = catgen.make(rng, spec["m"], **o)
        C, Q = F["C"], F["Q"]
        if spec["m"] == "layered":
            warm(rng, F)
        elif spec["m"] == "random":
            for k in ("att_liquid", "att_rain", "clutter", "molecular"):
                Q[k] &= rng.random(Q[k].shape) < 0.3
            for k in ("insect", "melting", "droplet"):
                C[k] &= rng.random(Q["radar"].shape) < 0.4
            refresh(F)
        cat = catgen.write(f"{tmp}/cat.nc", F)
    f, _ = gen.read(cat)
    par = (2.0, 200e6, 200e6, 0.35, 0.1, 5e-3)
    if spec["seed"] % 3 == 0:
        par = (1.5, 80e6, 120e6, 0.25, 0.2, 8e-3)
        generate_der(cat, f"{tmp}/der.nc", parameters=Parameters(*par))
    else:
        generate_der(cat, f"{tmp}/der.nc")
    der(obs, f, gen.read(f"{tmp}/der.nc")[0], par)
    with mie.redirected(tmp):
        generate_drizzle(cat, f"{tmp}/drizzle.nc")
    drizzle(obs, f, gen.read(f"{tmp}/drizzle.nc")[0])
    obs.nontrivial = obs.counts.get("der_values", 0) > 0 and obs.counts.get("drizzle_values", 0) > 0
    obs.sig = f"{spec['m']}-{v}-{spec['seed']}"
    obs.sample = {"mode": spec["m"], "der": obs.counts.get("der_values", 0), "drizzle": obs.counts.get("drizzle_values", 0)}
    return obs


def refresh(F):
    F["category_bits"], F["quality_bits"] = catgen.pack(F["C"], catgen.CAT), catgen.pack(F["Q"], catgen.QUA)
    Q = F["Q"]
    for k in ("Z", "v", "v_sigma", "width"):
        if k in F:
            F[k] = ma.array(F[k].data, mask=~Q["radar"])
    F["beta"] = ma.array(F["beta"].data, mask=~Q["lidar"])
    unc = (Q["att_liquid"] & ~Q["cor_liquid"]) | (Q["att_rain"] & ~Q["cor_rain"]) | (Q["att_melting"] & ~Q["cor_melting"])
    F["Z_error"] = ma.array(F["Z_error"].data, mask=~Q["radar"] | unc)


def warm(rng, F):
    """Drizzle below stratus: lidar and radar both see it."""
    C, Q = F["C"], F["Q"]
    sh = Q["radar"].shape
    d = catgen.blobs(rng, *sh, 4, (4, sh[0]), (3, max(4, sh[1] // 2)))
    d[:, sh[1] // 2:] = False
    lo = np.minimum.accumulate(~C["droplet"], axis=1)
    d &= lo
    C["falling"] |= d
    C["freezing"][d.any(axis=1)] &= np.arange(sh[1])[None, :] > sh[1] // 2
    C["insect"] &= ~d
    C["aerosol"] &= ~d
    Q["radar"] |= d & (rng.random(sh) < 0.95)
    Q["lidar"] |= d & (rng.random(sh) < 0.9)
    Q["clutter"] &= ~d
    refresh(F)
    b = F["beta"].data.copy()
    z = F["Z"].data.copy()
    n = d.sum()
    b[d] = 10 ** rng.uniform(-6.5, -4.2, n)
    z[d] = rng.uniform(-35, 5, n)
    F["beta"] = ma.array(b, mask=F["beta"].mask)
    F["Z"] = ma.array(z, mask=F["Z"].mask)


def first(d):
    return np.argwhere(d)[0].tolist()


def agl(f):
    alt = ma.asanyarray(f["altitude"])
    return np.array(f["height"], float) - (float(np.mean(np.array(alt, "f4"))) if alt.ndim else float(alt))


def near(obs, key, got, exp, present, tol=1e-3):
    gm = ma.getmaskarray(got)
    d = ~gm != present
    obs.check(not d.any(), f"{key}-presence", lambda: f"{int(d.sum())} pixels, first {first(d)}: got {got[d][0]} expected present={bool(present[d][0])}")
    ok = present & ~gm
    g = np.array(ma.filled(got, 1), float)
    with np.errstate(all="ignore"):
        d2 = ok & ~(np.abs(g - exp) <= tol * np.abs(exp))
    obs.check(not d2.any(), f"{key}-value", lambda: f"{int(d2.sum())} pixels, first {first(d2)}: {g[d2][0]} expected {exp[d2][0]}")
    return ok


def der(obs, f, p, par):
    ddbz, N, dN, sx, dsx, dQ = par
    C = catgen.unpack(f["category_bits"], catgen.CAT)
    rainy = catgen.is_rain(f)
    zm = ma.getmaskarray(f["Z"])
    Z = 10 ** (np.array(ma.filled(f["Z"], -99), float) / 10)
    lwpm = ma.getmaskarray(f["lwp"])
    lwp = np.maximum(np.array(ma.filled(f["lwp"], 0), float), 0)
    dz = np.diff(np.concatenate([[0], agl(f)]))
    sh = zm.shape
    scaled, nsc, e2 = np.zeros(sh), np.zeros(sh), np.zeros(sh)
    ok_s = np.zeros(sh, bool)
    pres = C["droplet"] & ~zm
    fac = 10 ** (ddbz / 10)
    obs.n("no_lwp_pixels", (pres & (lwpm | (lwp == 0))[:, None]).sum())
    for t in range(sh[0]):
        for a, b in catgen.runs(C["droplet"][t]):
            m = np.zeros(sh[1], bool)
            m[a:b] = ~zm[t, a:b]
            if not m.any():
                continue
            obs.n("der_layers")
            obs.n("layer_with_gap", m.sum() < b - a)
            if lwpm[t] or lwp[t] <= 0:
                continue
            integral = float((np.sqrt(Z[t, m]) * dz[m]).sum())
            # formula 6: radius in mm * 1e-3 (Z in mm6 m-3, LWP in kg m-2)
            r = 1e-3 * Z[t, m] ** (1 / 6) / (2 * lwp[t] ** (1 / 3)) * (np.pi * 1000 / 6) ** (1 / 3) * integral ** (1 / 3) * np.exp(-2 * sx ** 2)
            scaled[t, m] = r * 1e-3
            nsc[t, m] = Z[t, m] / ((2 * r) / np.exp(-0.5 * sx ** 2)) ** 6
            e2[t, m] = r * 1e-3 * np.sqrt((fac / 6) ** 2 + (4 * sx * dsx) ** 2 + (dQ / (3 * lwp[t])) ** 2)
            ok_s[t, m] = True
    r1 = 0.5 * (Z / N) ** (1 / 6) * np.exp(-0.5 * sx ** 2) * 1e-3
    obs.n("der_values", pres.sum())
    near(obs, "der", p["der"], r1, pres)
    near(obs, "der-error", p["der_error"], r1 * np.sqrt((dN / (6 * N)) ** 2 + (sx * dsx) ** 2 + (fac / 6) ** 2), pres)
    near(obs, "der-scaled", p["der_scaled"], scaled, ok_s)
    near(obs, "der-scaled-error", p["der_scaled_error"], e2, ok_s)
    near(obs, "n-scaled", p["N_scaled"], nsc, ok_s, 5e-3)
    st = np.zeros(sh, int)
    st[C["falling"] & C["freezing"] & ~C["melting"] & ~C["droplet"] & ~C["insect"]] = 4
    st[pres] = 1
    st[pres & C["falling"]] = 2
    st[pres & rainy[:, None]] = 3
    for k in (1, 2, 3, 4):
        obs.n(f"der_status_{k}", (st == k).sum())
    d = np.array(ma.filled(p["der_retrieval_status"], -9)).astype(int) != st
    obs.check(not d.any(), "der-status", lambda: f"{int(d.sum())} pixels, first {first(d)}: {p['der_retrieval_status'][d][0]} expected {st[d][0]}")


def diameter(ratio, mu=0.0, ray=1.0, k=1.0):
    return (gamma(3 + mu) / gamma(7 + mu) * (3.67 + mu) ** 4 / (ray * k * ratio)) ** 0.25


def solve(L, ratio, corr, width):
    """Returns final (D, mu index, D index)."""
    D, W, MU = L["Do"], L["width"], L["mu"]
    d = diameter(ratio, k=18.8)
    for _ in range(10):
        j = min(int(np.searchsorted(D[:-1], d)), len(D) - 1)
        i = int((W[:-1, j] > width).sum())
        new = diameter(ratio * corr, MU[i], L["ray"][i, j], L["S"][i, j])
        done = abs((new - d) / d) < 1e-3
        if done:
            break
        d = new
    return new, i, j


def drizzle(obs, f, p):
    C, Q = catgen.unpack(f["category_bits"], catgen.CAT), catgen.unpack(f["quality_bits"], catgen.QUA)
    rainy = catgen.is_rain(f)
    R = np.tile(rainy[:, None], (1, C["droplet"].shape[1]))
    L = mie.lut("35" if 30 < float(f["radar_frequency"]) < 40 else "94")
    warm_liq = C["droplet"] & ~C["freezing"]
    dr = (~R & C["falling"] & ~C["droplet"] & ~C["freezing"] & ~C["melting"] & ~C["insect"] & Q["radar"] & Q["lidar"] & ~Q["clutter"] &
          ~Q["molecular"] & ~Q["att_liquid"] & ~Q["att_rain"])
    no_sigma = ma.getmaskarray(f["v_sigma"]) | ~np.isfinite(np.array(ma.filled(f["v_sigma"], 0), float))
    obs.n("no_v_sigma", (dr & no_sigma).sum())
    dr &= ~no_sigma
    would = ~R & warm_liq & C["falling"] & ~C["melting"] & ~C["insect"] & Q["radar"] & ~Q["clutter"] & ~Q["molecular"]
    st = dr.astype(int)
    st[dr & C["melting"].any(axis=1)[:, None]] = 2
    st[would] = 3
    st[(st == 0) & warm_liq] = 4
    st[R] = 5
    for k in (1, 2, 3, 4, 5):
        obs.n(f"drizzle_status_{k}", (st == k).sum())
    d = np.array(ma.filled(p["drizzle_retrieval_status"], -9)).astype(int) != st
    obs.check(not d.any(), "drizzle-status", lambda: f"{int(d.sum())} pixels, first {first(d)}: {p['drizzle_retrieval_status'][d][0]} expected {st[d][0]}")
    obs.n("drizzle_values", dr.sum())
    Z = 10 ** ((np.array(ma.filled(f["Z"], -99), float) - 180) / 10)
    beta = np.array(ma.filled(f["beta"], 0), float)
    hag = agl(f)
    dz = np.diff(np.concatenate([[0], hag]))
    wind = np.hypot(catgen.interp_model(f, "uwind"), catgen.interp_model(f, "vwind"))
    div = (hag * np.pi / 180 * 0.5)[None, :]
    a, b = (wind + div) ** (2 / 3), (30 * wind + div) ** (2 / 3)
    width = np.array(ma.filled(f["width"], 0), float) if "width" in f else 0.0
    obs.n("no_width", "width" not in f)
    wht = width - a / (b - a) * np.array(ma.filled(f["v_sigma"], 0), float)
    names = ("Do", "mu", "S", "drizzle_N", "drizzle_lwc", "drizzle_lwf", "v_drizzle", "v_air", "Do_error", "drizzle_lwc_error", "drizzle_lwf_error", "S_error",
             "drizzle_N_error", "v_drizzle_error")
    for k in names:
        if k in ("mu", "v_air", "drizzle_lwf", "v_drizzle"):
            extra = ~ma.getmaskarray(p[k]) & ~dr
            obs.check(not extra.any(), f"{k}-outside-drizzle", lambda k=k: f"{int(extra.sum())} pixels, first {first(extra)}")
        elif k.endswith("error"):
            pe = dr & ~ma.getmaskarray(f["Z_error"])
            g = ~ma.getmaskarray(p[k])
            d = (g & ~dr) | (pe & ~g)
            obs.check(not d.any(), f"{k}-presence", lambda k=k: f"{int(d.sum())} pixels, first {first(d)}")
        else:
            d = ~ma.getmaskarray(p[k]) != dr
            obs.check(not d.any(), f"{k}-presence", lambda k=k: f"{int(d.sum())} pixels, first {first(d)}: {p[k][d][0]} expected present={bool(dr[d][0])}")
    V = {k: np.array(ma.filled(p[k], 0), float) for k in names}
    bc = np.array(ma.filled(p["beta_corr"], 0), float)
    corr = np.where(R, 0.0, 1.0)
    for t, h in np.argwhere(dr):
        if corr[t, h] > 1.001:
            obs.n("corrected")
        ratio = 2 / np.pi * beta[t, h] / Z[t, h]
        hit = None
        for eps in (0, 1e-6, -1e-6, 3e-6, -3e-6):
            for ew in (0, 3e-7, -3e-7):
                D, i, j = solve(L, ratio * (1 + eps), corr[t, h], wht[t, h] + ew)
                if abs(D / V["Do"][t, h] - 1) < 1e-4 if V["Do"][t, h] else False:
                    hit = (D, i, j)
                    break
            if hit:
                break
        if not hit:
            D, i, j = solve(L, ratio, corr[t, h], wht[t, h])
            obs.bad("drizzle-diameter", f"pixel {(int(t), int(h))}: Do={V['Do'][t, h]} expected {D} (corr {corr[t, h]:.4f})")
            return
        D, i, j = hit
        mu, S = float(L["mu"][i]), float(L["S"][i, j])
        jj = min(int(np.searchsorted(L["Do"], D)), len(L["Do"]) - 1)
        lwc = 1000 / 3 * beta[t, h] * S * D * gamma(4 + mu) / gamma(3 + mu) / (3.67 + mu)
        exp = {"mu": mu, "S": S, "drizzle_N": Z[t, h] * 3.67 ** 6 / D ** 6, "drizzle_lwc": lwc}
        for k, e in exp.items():
            if not obs.check(abs(V[k][t, h] - e) <= 2e-3 * abs(e), k, lambda k=k, e=e: f"pixel {(int(t), int(h))}: {k}={V[k][t, h]} expected {e}"):
                return
        alts = {jj} | ({min(jj + 1, len(L["Do"]) - 1), max(jj - 1, 0)} if np.abs(L["Do"] / D - 1).min() < 1e-5 else set())
        ok = any(abs(V["drizzle_lwf"][t, h] - lwc * L["lwf"][i, q] * L["termv"][q]) <= 2e-3 * abs(V["drizzle_lwf"][t, h]) and
                 abs(V["v_drizzle"][t, h] + L["v"][i, q]) <= 1e-3 * abs(L["v"][i, q]) for q in alts)
        obs.check(ok, "drizzle-flux-or-velocity", lambda: f"pixel {(int(t), int(h))}: lwf={V['drizzle_lwf'][t, h]} expected {lwc * L['lwf'][i, jj] * L['termv'][jj]}; "
                  f"v={V['v_drizzle'][t, h]} expected {-L['v'][i, jj]}")
        corr[t, h + 1:] *= np.exp(2 * S * beta[t, h] * dz[h])
    ok = np.abs(bc - corr) <= 1e-3 * np.abs(corr) + 1e-9
    big = corr > 1e30
    obs.check((ok | big).all(), "beta-corr", lambda: f"first {first(~(ok | big))}: {bc[~(ok | big)][0]} expected {corr[~(ok | big)][0]}")
    va = np.array(ma.filled(f["v"], 0), float) - V["v_drizzle"]
    d = dr & (np.abs(V["v_air"] - va) > 1e-4 * (1 + np.abs(va)))
    obs.check(not d.any(), "v-air", lambda: f"{int(d.sum())} pixels, first {first(d)}: {V['v_air'][d][0]} expected {va[d][0]}")
    # errors
    lin = lambda x: np.exp(np.minimum(x, 100) / COR) - 1  # noqa: E731
    db = lambda x: np.log(x + 1) * COR  # noqa: E731
    pe = dr & ~ma.getmaskarray(f["Z_error"])
    ze, be = lin(np.array(ma.filled(f["Z_error"], 0), float)), lin(float(f["beta_error"]))
    small, tiny = (V["Do"] <= 1e-4) & (V["Do"] > 1e-5), (V["Do"] <= 1e-5) & dr
    sq = lambda s, w1, w2, m: np.sqrt(s * s * ((w1 * ze) ** 2 + (w2 * be) ** 2) + m * m)  # noqa: E731
    e = {"Do_error": np.where(small, sq(1 / 4, 1, 1, .25), sq(2 / 7, 1, 1, .07)),
         "drizzle_lwc_error": np.where(small, sq(1 / 4, 1, 3, 0), sq(1 / 7, 1, 6, 0)),
         "drizzle_lwf_error": np.where(tiny, sq(1 / 4, 3, 1, .25), np.where(small, sq(1 / 2, 1, 1, .25), sq(1 / 7, 3, 4, .07))),
         "S_error": sq(1 / 2, 1, 1, 0)}
    edge = (np.abs(V["Do"] / 1e-4 - 1) < 1e-5) | (np.abs(V["Do"] / 1e-5 - 1) < 1e-5)
    obs.n("tiny", tiny.sum())
    for k, x in e.items():
        d = pe & ~edge & (np.abs(V[k] - db(x)) > 1e-3 * db(x))
        obs.check(not d.any(), k, lambda k=k, x=x: f"{int(d.sum())} pixels, first {first(d)}: {V[k][d][0]} expected {db(x)[d][0]}")
    zb, bb = lin(float(f["Z_bias"])), lin(float(f["beta_bias"]))
    bi = lambda s, w1, w2: float(db(s * np.hypot(w1 * zb, w2 * bb)))  # noqa: E731
    for k, x in {"Do_bias": bi(2 / 7, 1, 1), "drizzle_lwc_bias": bi(1 / 7, 1, 6), "drizzle_lwf_bias": bi(1 / 7, 3, 4)}.items():
        obs.check(abs(float(p[k]) - x) < 1e-3 * x, k, lambda k=k, x=x: f"{p[k]} expected {x}")
