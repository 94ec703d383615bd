"""C26: day statistics of model and observation follow their definitions and leave the data alone."""
import itertools
import os
import warnings

import netCDF4
import numpy as np
from numpy import ma

from .. import l3gen
from ..runner import Obs

ID, LEVEL = "C26", "exploration"
RULE = ("statistics on random pairs of fields (float and integer, with and without masks, NaN, negative and tiny values, disjoint or identical fields, one point, all missing) in random order on shared arrays, "
        "and statistic figures drawn from real level 3 files of cf, iwc and lwc with every order of the statistics; texts, segments, histogram bars and profiles of the figures read back; distinct by kind and seed")
ASSUMPTIONS = ["values of the model below the smallest observed value count as missing in error and area statistics", "histograms clip the model at the upper edge of the observed histogram",
               "NaN in the model is masked only in the area statistic"]
MIN = {"fields": 1300, "points": 50000, "errors": 3000, "areas": 1500, "histograms": 1500, "profiles": 1500, "unchanged": 8000, "identical": 70, "antisymmetric": 10000, "permuted": 1300, "below": 1500, "nan": 2000,
       "figures": 200, "texts": 140, "segments": 900, "bars": 1000, "lines": 180, "rolling": 15000, "area_nonzero": 900, "constant_obs": 40}
warnings.filterwarnings("ignore")


def cases(tier, seed):
    n, m = (8000, 320) if tier == "quick" else (12000, 700)
    out = [{"seed": seed * 1000000 + i * 10, "kind": "fields"} for i in range(n)]
    orders = list(itertools.permutations(("error", "area", "hist", "vertical")))
    out += [{"seed": seed * 1000000 + i * 10 + 1, "kind": "figure", "product": ("cf", "iwc", "lwc")[i % 3], "order": list(orders[(i * 7 + seed) % 24])} for i in range(m)]
    return out


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    (fields if spec["kind"] == "fields" else figure)(obs, rng, spec, tmp)
    obs.sig = spec["kind"], spec["seed"]
    return obs


# ---- definitions, point by point -------------------------------------------------------------------
def points(x):
    m, d = ma.getmaskarray(x), ma.getdata(x)
    return [None if m.flat[i] else d.flat[i].item() for i in range(d.size)]


def isnan(v):
    return v is not None and v != v


def valid_pairs(model, o, nan_model_missing):
    """values of both where both count as present, None elsewhere"""
    P, Q = points(model), [None if isnan(v) else v for v in points(o)]
    if nan_model_missing:
        P = [None if isnan(v) else v for v in P]
    seen = [v for v in Q if v is not None]
    if seen:
        low = min(seen)
        P = [None if v is not None and v < low else v for v in P]
    return P, Q


def ref_error(model, o, relative):
    P, Q = valid_pairs(model, o, False)
    out = []
    for p, q in zip(P, Q):
        if p is None or q is None:
            out.append(None)
        elif relative:
            out.append(None if q == 0 else (p - q) / q * 100)
        else:
            out.append((q - p) * 100)
    return out


def ref_area(model, o):
    P, Q = valid_pairs(model, o, True)
    if not any(v is not None for v in Q):
        return 0.0
    both = sum(p is not None and q is not None for p, q in zip(P, Q))
    some = sum(p is not None or q is not None for p, q in zip(P, Q))
    return 100 * both / some if some else 0.0


def ref_segments(model, o):
    P, Q = valid_pairs(model, o, True)
    return [(0 if q is None else 3) if p is None else (1 if q is None else 2) for p, q in zip(P, Q)]


def ref_hist(model, o, cf):
    nd = 1 if cf else 6
    Q = np.round(np.array([v for v in points(o) if v is not None and not isnan(v)], dtype=o.dtype), nd)
    P = np.round(np.array([v for v in points(model) if v is not None], dtype=model.dtype), nd)
    if not len(Q):
        return P, Q, 1.0
    top = Q.max() if Q.max() > Q.min() else Q.max() + .5
    if ma.getdata(model).dtype.kind == "i":
        top = int(top)  # the field keeps its type
    return np.where(P > top, top, P), Q, top


def ref_profile(x):
    P = np.array([np.nan if v is None else v for v in points(x)], dtype=float).reshape(x.shape)
    return [np.nan if np.isnan(c).all() else float(np.mean(c[~np.isnan(c)])) for c in P.T]


def ref_rolling(p):
    out = []
    for i in range(len(p)):
        w = [v for v in p[i:i + 4] if v == v]
        out.append(sum(w) / len(w) if w else np.nan)
    return out


def nans(x):
    return np.asarray(ma.filled(ma.asarray(x).astype(float), np.nan))


def close(a, b, tol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= atol + tol * np.abs(b))))


# ---- statistics on arrays ----------------------------------------------------------------------------
def make(rng):
    sh = (int(rng.integers(1, 12)), int(rng.integers(1, 14)))
    kind = rng.choice(["cf", "wc", "int", "signed", "f4"])
    def one():
        if kind == "cf":
            x = np.where(rng.random(sh) < .3, 0, rng.random(sh))
        elif kind == "int":
            x = rng.integers(0, 9, sh)
        elif kind == "signed":
            x = rng.normal(0, 5, sh)
        else:
            x = 10.0 ** rng.uniform(-9, -3, sh)
        return x.astype("f4") if kind == "f4" else x
    def masked(x):
        r = rng.random()
        if r < .15:
            return ma.array(x)
        if r < .25:
            return ma.array(x, mask=np.zeros(sh, bool))
        if r < .3:
            return ma.array(x, mask=np.ones(sh, bool))
        m = rng.random(sh) < rng.uniform(0, 1)
        if r < .45:
            m[:, rng.integers(0, sh[1])] = True
        return ma.array(x, mask=m)
    model, o = masked(one()), masked(one())
    r = rng.random()
    same = disjoint = False
    if r < .1:
        o, same = ma.array(model, copy=True), True
    elif r < .15:
        o.mask = ~ma.getmaskarray(model)
    elif r < .2:
        o = ma.array(np.full(sh, o.data.flat[0]), mask=ma.getmaskarray(o))
    nan = False
    if kind != "int" and rng.random() < .35:
        o.data[rng.random(sh) < .15] = np.nan
        nan, same = True, False
    nan_model = kind != "int" and rng.random() < .1
    if nan_model:
        model.data[rng.random(sh) < .15] = np.nan
        same = False
    return model, o, kind, same, nan, nan_model


def snap(x):
    return (x.data.tobytes(), ma.getmaskarray(x).tobytes(), x.dtype, x.shape)


def fields(obs, rng, spec, tmp):
    from cloudnetpy.model_evaluation.plotting import plot_tools
    from cloudnetpy.model_evaluation.statistics.statistical_methods import DayStatistics
    model, o, kind, same, nan, nan_model = make(rng)
    obs.n("fields")
    obs.n("points", model.size)
    obs.n("nan", int(np.isnan(o.data).sum()) if kind != "int" else 0)
    obs.n("identical", int(same))
    tag = f"{kind} {model.shape}"
    name = "cf" if kind == "cf" else str(rng.choice(["iwc", "lwc"]))
    info = [name, "ECMWF", "some name"]
    qv = [v for v in points(o) if v is not None and not isnan(v)]
    obs.n("constant_obs", int(len(qv) > 1 and min(qv) == max(qv)))
    if qv:
        obs.n("below", sum(v is not None and v < min(qv) for v in points(model)))
    order = [str(x) for x in rng.permutation(["error", "aerror", "area", "hist", "vertical"])]
    order += [order[0]]
    before = snap(model), snap(o)
    results = {}
    eps = 1e-3 if kind == "f4" else 1e-9
    for method in order:
        st = DayStatistics(method, info, model, o)
        obs.n("unchanged")
        obs.check((snap(model), snap(o)) == before, f"changed:{method}", f"{method} changed the arrays it was given, {tag}")
        if (snap(model), snap(o)) != before:
            return
        a, b = st.model_stat, st.observation_stat
        title = ("ECMWF", "some name") if method in ("hist", "vertical") else "some name vs ECMWF"
        obs.check(st.title == title, "title", f"{method}: title {st.title!r}")
        if method in ("error", "aerror"):
            ref = ref_error(model, o, method == "error")
            got = points(a)
            obs.n("errors")
            if obs.check(a.shape == model.shape, f"shape:{method}", f"{a.shape} for {model.shape}"):
                for i, (g, r) in enumerate(zip(got, ref)):
                    g = None if isnan(g) else g
                    r = None if isnan(r) else r
                    if r is None or g is None:
                        if not obs.check(g is None and r is None, f"missing:{method}", f"point {i} is {g}, expected {r}, {tag}"):
                            break
                    elif not obs.check(g == r or abs(g - r) <= .005001 + eps * (abs(r) + 100), f"value:{method}", f"point {i} is {g}, expected {r}, {tag}"):
                        break
            if same:
                obs.check(all(v is None or v == 0 for v in got), f"identical:{method}", f"{method} of identical fields: {a}")
            results[method] = nans(a)
        elif method == "area":
            obs.n("areas")
            r = ref_area(model, o)
            obs.n("area_nonzero", int(0 < r < 100))
            obs.check(0 <= float(a) <= 100, "area:bounds", f"common area {a}")
            obs.check(abs(float(a) - r) <= .00501, "value:area", f"common area {a}, expected {r}, {tag}")
            if same and qv:
                obs.check(float(a) == 100, "identical:area", f"common area of identical fields {a}")
            results[method] = float(a)
        elif method == "hist":
            P, Q, top = ref_hist(model, o, name == "cf")
            obs.n("histograms")
            ga, gb = np.sort(np.asarray(a, float)), np.sort(np.asarray(b, float))
            obs.check(np.ndim(a) == 1 and np.ndim(b) == 1, "hist:shape", f"{np.shape(a)} {np.shape(b)}")
            obs.check(not len(Q) or close(ga, np.sort(P), eps, 2e-6 if kind == "f4" else 1e-12), "value:hist-model", lambda: f"{len(ga)} model values, expected {len(P)}: {ga[:4]}.. {np.sort(P)[:4]}.., {tag}")
            obs.check(close(gb, np.sort(Q), eps, 2e-6 if kind == "f4" else 1e-12), "value:hist-observation", lambda: f"{len(gb)} observed values, expected {len(Q)}: {gb[:4]}.. {np.sort(Q)[:4]}.., {tag}")
            results[method] = ga, gb
        else:
            obs.n("profiles")
            for who, g, x in (("model", a, model), ("observation", b, o)):
                if who == "model" and nan_model:
                    continue
                r = ref_profile(x)
                obs.check(close(nans(g), r, max(eps, 1e-6 if kind == "f4" else 0), 1e-9), f"value:vertical-{who}", lambda: f"profile {nans(g)}, expected {r}, {tag}")
                if isinstance(g, ma.MaskedArray):
                    obs.n("rolling", len(r))
                    obs.check(close(plot_tools.rolling_mean(ma.array(g, copy=True)), ref_rolling(r), max(eps, 1e-6), 1e-9), f"rolling:{who}", lambda: f"rolling mean {plot_tools.rolling_mean(g)}, expected {ref_rolling(r)}")
            results[method] = nans(a), nans(b)
    # exchange of the fields: the signed difference changes its sign at points present in both statistics
    if not nan_model:
        x = results["aerror"]
        y = nans(DayStatistics("aerror", info, ma.array(o, copy=True), ma.array(model, copy=True)).model_stat)
        both = ~np.isnan(x) & ~np.isnan(y)
        obs.n("antisymmetric", int(both.sum()))
        obs.check(bool(np.all(np.abs(x + y)[both] <= 1e-9 * (1 + np.abs(x[both])))), "antisymmetry", "absolute errors of exchanged fields differ by more than the sign")
    # order of the times does not matter
    k = rng.permutation(model.shape[0])
    m2, o2 = ma.array(model[k], copy=True), ma.array(o[k], copy=True)
    obs.n("permuted")
    for method in ("error", "aerror", "area"):
        g = DayStatistics(method, info, m2, o2).model_stat
        r = results[method] if method == "area" else results[method][k]
        obs.check(close(nans(g), r) if method != "area" else float(g) == r, f"order:{method}", f"{method} depends on the order of times, {tag}")
    # segments
    if model.mask.shape == model.shape and o.mask.shape == o.shape:
        g = plot_tools.create_segment_values(model, o)
        pm, qm = ma.getmaskarray(model), ma.getmaskarray(o)
        r = np.where(pm & qm, 0, np.where(qm, 1, np.where(pm, 3, 2)))
        obs.n("segments")
        obs.check(np.array_equal(g, r), "segment-values", f"segments {g}, expected {r}")


# ---- figures of level 3 files ---------------------------------------------------------------------
def figure(obs, rng, spec, tmp):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    from cloudnetpy.model_evaluation.plotting import plotting
    from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product
    product = spec["product"]
    M = l3gen.model(rng)
    O = l3gen.observations(rng, product, float(rng.uniform(3000, 14000)))
    mod, ob, out = l3gen.write_model(tmp + "/20230614_site_ecmwf.nc", M), l3gen.write_obs(tmp + "/20230614_site_obs.nc", O), tmp + "/l3.nc"
    process_L3_day_product("ecmwf", product, mod, ob, out)
    made, subplots, close_ = [], plt.subplots, plt.close

    def record(*a, **k):
        r = subplots(*a, **k)
        made.append(r)
        return r
    stats = spec["order"][: int(rng.integers(1, 5))]
    plt.subplots, plt.close = record, lambda *a: None
    try:
        before = open(out, "rb").read()
        plotting.generate_L3_day_plots(out, product, fig_type="statistic", stats=tuple(stats), save_path=None, title=bool(rng.random() < .7))
        obs.check(open(out, "rb").read() == before, "file-changed", "the level 3 file changed")
        # sequences of names: what the figures show
        with netCDF4.Dataset(out) as nc:
            names = [n for n in nc.variables if product in n and "cirrus" not in n and "snow" not in n]
            data = {n: present(nc[n][:], n) for n in names}
            height = nc["model_height"][:]
        first = [n for n in names if n.startswith("model_")]
        std = first + [n for n in names if "adv" not in n and n not in first]
        adv = first + [n for n in names if "adv" in n and n not in first]
        groups = [std, adv] if len(std) == len(adv) else [std if len(std) > len(adv) else adv]
        # group the created figures: subplots is called several times for hist and vertical, the last one counts
        figs = iter(made)
        for group in groups:
            model = data[group[0]]
            for stat in stats:
                n = len(group) - 1
                fig, axes = next(figs)
                if stat in ("hist", "vertical"):
                    fig, axes = next(figs)
                    if n > 1:
                        fig, axes = next(figs)
                    if n > 1 and stat == "vertical":
                        fig, axes = next(figs)
                obs.n("figures")
                axes = list(np.atleast_1d(axes).flatten())
                drawn = True
                for ax, name in zip(axes, group[1:]):
                    if not drawn:
                        break
                    drawn = look(obs, ax, stat, product, model, data[name], name, height)
        obs.check(next(figs, None) is None, "figures", f"more figures than statistics {stats} of {groups}")
    finally:
        plt.subplots, plt.close = subplots, close_
        plt.close("all")


def present(x, name):
    x = ma.array(x, copy=True)
    low = {"lwc": 1e-5, "iwc": 1e-7}
    d, m = ma.getdata(x), ma.getmaskarray(x).copy()
    with np.errstate(invalid="ignore"):
        m |= d <= 0
        for k, v in low.items():
            if k in name:
                m |= d < v
    return ma.array(d, mask=m)


def look(obs, ax, stat, product, model, o, name, height):
    tag = f"{stat} of {name}"
    if ma.getmaskarray(model).all() and stat != "x":
        return False  # no data: nothing is drawn
    texts = [t.get_text() for t in ax.texts]
    if stat == "error":
        ref = [v for v in ref_error(model, o, product != "cf") if v is not None and v == v]
        if not ref:
            return False
        what = "Median absolute error" if product == "cf" else "Median relative error"
        got = [t for t in texts if t.startswith("Median")]
        obs.n("texts")
        if obs.check(len(got) == 1 and got[0].startswith(what + ": ") and got[0].endswith(" %"), "text:error", f"{tag}: texts {texts}"):
            v = float(got[0].split(": ")[1][:-2])
            r = float(np.median(np.round(ref, 2)))
            obs.check(abs(v - r) <= .0151 + 1e-4 * abs(r), "figure:error", f"{tag}: median {v}, expected {r}")
    elif stat == "area":
        got = [t for t in texts if t.startswith("Common area")]
        obs.n("texts")
        if obs.check(len(got) == 1, "text:area", f"{tag}: texts {texts}"):
            v, r = float(got[0].split(": ")[1].split(" ")[0]), ref_area(model, o)
            obs.check(abs(v - r) <= .00501, "figure:area", f"{tag}: common area {v}, expected {r}")
        mesh = [c for c in ax.collections if hasattr(c, "get_array") and c.get_array() is not None]
        if obs.check(len(mesh) == 1, "figure:mesh", f"{tag}: {len(mesh)} meshes"):
            g = np.asarray(mesh[0].get_array()).ravel()
            r = np.array(ref_segments(model, o)).reshape(model.shape)
            obs.n("segments")
            obs.check(any(np.array_equal(g, x.ravel()) for x in (r, r.T)), "figure:segments",
                      lambda: f"{tag}: segments {np.bincount(g.astype(int), minlength=4)}, expected {np.bincount(r.ravel(), minlength=4)}")
    elif stat == "hist":
        P, Q, top = ref_hist(model, o, product == "cf")
        if not len(Q) or not len(P):
            return True
        bars = [[p.get_height() for p in c] for c in ax.containers]
        if obs.check(len(bars) == 2, "figure:hist", f"{tag}: {len(bars)} histograms"):
            edges = np.histogram(Q)[1]
            for who, x, b in zip(("model", "observation"), (P, Q), bars):
                r = np.histogram(x, edges)[0] / len(x)
                obs.n("bars", len(r))
                slack = np.sum([np.min(np.abs(edges[1:-1] - v)) < 1e-7 * abs(v) for v in x])  # on an edge up to rounding
                ok = len(b) == len(r) and np.abs(np.cumsum(b) - np.cumsum(r)).max() <= 1e-5 + slack / len(x) and (who == "model" or abs(sum(b) - 1) < 1e-4)
                obs.check(bool(ok), f"figure:hist-{who}", lambda: f"{tag}: bars {b}, expected {list(r)}")
    else:
        lines = {}
        for ln in ax.lines:
            lines.setdefault(ln.get_label(), ln)
        for who, x, k, roll in (("observation", o, "Observation", "Mean of observation"),):
            r = ref_profile(x)
            if not obs.check(k in lines and roll in lines, "figure:profile", f"{tag}: lines {sorted(lines)}"):
                return True
            obs.n("lines", 2)
            obs.check(close(nans(lines[k].get_xdata()), r, 1e-5, 1e-12), "figure:vertical", lambda: f"{tag}: profile {nans(lines[k].get_xdata())}, expected {r}")
            obs.check(close(nans(lines[roll].get_xdata()), ref_rolling(r), 1e-5, 1e-12), "figure:rolling", lambda: f"{tag}: rolling mean {nans(lines[roll].get_xdata())}, expected {ref_rolling(r)}")
        others = [v for k, v in lines.items() if not k.startswith("_") and "bservation" not in k]
        r = ref_profile(model)
        obs.check(len(others) == 2 and close(nans(others[0].get_xdata()), r, 1e-5, 1e-12) and close(nans(others[1].get_xdata()), ref_rolling(r), 1e-5, 1e-12), "figure:vertical-model",
                  lambda: f"{tag}: model profiles {[nans(v.get_xdata()) for v in others]}, expected {r}")
    return True
