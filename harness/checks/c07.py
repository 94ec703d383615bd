"""C07: locality in time and repeatability of the categorize step."""
import copy

import numpy as np
from numpy import ma

from .. import gen
from ..runner import Obs

ID, LEVEL = "C07", "exploration"
RULE = ("pairs of categorize runs on long scenes (13-21 h): the second run gets instrument and model data beyond a cut time removed, replaced or scrambled; "
        "every time-dependent value more than 6.6 h from the change must be identical; plus exact repetitions of a run; non-trivial if the change altered "
        "the other side; distinct by scene, cut and kind of change")
ASSUMPTIONS = ["Z_error and Z_sensitivity use a file-wide detection limit and are exempt; stripe filters (from 300 profiles on) are not activated",
               "the gate used for rain detection is file-wide: pairs in which it differs are not counted"]
MIN = {"pairs": 12, "values": 600000, "rows_compared": 900, "changed_elsewhere": 12, "repeats": 2, "rainy_rows": 10, "insects": 50, "melting": 100}
REACH = 6.6


def cases(tier, seed):
    n = 96 if tier == "quick" else 400
    return [{"seed": seed * 100000 + i, "v": i % 16} for i in range(n)]


def run_case(spec, tmp):
    from cloudnetpy.categorize import generate_categorize
    import os
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    v = spec["v"]
    dur = float(rng.uniform(13.5, 21))
    t0 = float(rng.uniform(0.1, 23.8 - dur))
    step = max(180.0, dur * 3600 / 285)
    o = {"dur": dur, "t0": t0, "step": step, "lstep": 60.0, "lgaps": 0, "ng": 45, "gaps": int(rng.integers(0, 2)),
         "tsurf": [286.0, 280.0, 291.0, 272.0][v % 4], "p_rain": 0.9, "dz": 97.5, "mwr": v % 3 != 0, "disdro": v % 5 < 3, "nyq": "scalar"}
    S = gen.scene(rng, **o)
    R = S["radar"]
    # place the samples inside 30 s bins, two per bin
    t = np.unique(np.floor(R["time"] * 120)) / 120
    idx = np.unique(np.floor(R["time"] * 120), return_index=True)[1]
    for k, a in list(R.items()):
        if isinstance(a, np.ndarray) and a.ndim >= 1 and a.shape[0] == len(S["radar"]["time"]) and k != "time":
            b = a[idx]
            R[k] = ma.array(np.repeat(b.data, 2, 0), mask=np.repeat(ma.getmaskarray(b), 2, 0)) if ma.isMA(b) else np.repeat(b, 2, 0)
    R["time"] = (np.repeat(t, 2) + np.tile([6 / 3600, 21 / 3600], len(t)))
    H = S["rng"][None, :]
    n = len(R["time"])
    for k, val in (("Zh", -28), ("v", -0.5), ("width", 0.15), ("ldr", -7), ("sldr", -7)):  # insects everywhere in summer
        if k in R and S["tsurf"] > 283:
            m = (H < 900) & (np.random.default_rng(5).random((n, H.size)) < 0.3) & ma.getmaskarray(R["Zh" if k != "Zh" else k])
            if k == "Zh":
                first = m
            x, mk = R[k].data.copy(), ma.getmaskarray(R[k]).copy()
            x[first] = val + rng.normal(0, 0.05, int(first.sum()))
            mk[first] = False
            R[k] = ma.array(x, mask=mk)
    files = gen.write_scene(S, tmp)
    generate_categorize(files, f"{tmp}/a.nc")
    A, _ = gen.read(f"{tmp}/a.nc")
    if v == 15:
        generate_categorize(files, f"{tmp}/b.nc")
        B, _ = gen.read(f"{tmp}/b.nc")
        obs.n("repeats")
        compare(obs, A, B, A["time"].astype("f8") < 99, B["time"].astype("f8") < 99, "repeat", set())
        obs.sig = f"repeat-{spec['seed']}"
        return obs
    after = v % 2 == 0
    tm = t0 + (REACH + 0.6 + (dur - REACH - 0.8) * rng.random()) if after else t0 + dur - (REACH + 0.6 + (dur - REACH - 0.8) * rng.random())
    kind = ["remove", "scramble", "shift"][(v // 2) % 3]
    S2 = change(copy.deepcopy(S), tm, after, kind, rng)
    d2 = f"{tmp}/2"
    os.makedirs(d2)
    files2 = gen.write_scene(S2, d2)
    generate_categorize(files2, f"{tmp}/b.nc")
    B, _ = gen.read(f"{tmp}/b.nc")
    ta, tb = A["time"].astype("f8"), B["time"].astype("f8")
    sa = ta < tm - REACH if after else ta > tm + REACH
    sb = tb < tm - REACH if after else tb > tm + REACH
    fa, fb = (int(np.argmin(ma.getmaskarray(X["Z"]).all(0))) for X in (A, B))
    if fa != fb:
        obs.n("skipped_rain_gate")
        obs.nontrivial = False
        return obs
    obs.n("pairs")
    compare(obs, A, B, sa, sb, kind, {"Z_error"})
    same_n = len(ta) == len(tb) and np.array_equal(np.array(A["category_bits"]), np.array(B["category_bits"]))
    obs.n("changed_elsewhere", 0 if same_n else 1)
    cat = np.array(A["category_bits"])[sa]
    obs.n("rainy_rows", np.array(A["rain_detected"])[sa].astype(bool).sum())
    obs.n("insects", ((cat >> 5) & 1).sum())
    obs.n("melting", ((cat >> 3) & 1).sum())
    obs.sig = f"{kind}-{after}-{S['kind']}-{spec['seed']}"
    obs.nontrivial = not same_n and int(sa.sum()) > 5
    obs.sample = {"seed": spec["seed"], "change": kind, "after": after, "cut": round(tm, 2), "rows_compared": int(sa.sum())}
    return obs


def change(S, tm, after, kind, rng):
    for name in ("radar", "lidar", "mwr", "disdrometer"):
        if name not in S:
            continue
        d = S[name]
        t = np.array(d["time"])
        far = t > tm if after else t < tm
        if kind == "remove" and (~far).sum() > 10:
            for k, a in list(d.items()):
                if isinstance(a, np.ndarray) and a.ndim >= 1 and a.shape[0] == t.size and k not in ("range", "height"):
                    d[k] = a[~far]
            continue
        ix = np.where(far)[0]
        for k, a in list(d.items()):
            if not (isinstance(a, np.ndarray) and a.ndim >= 1 and a.shape[0] == t.size) or k in ("time", "range", "height", "correction_bits", "nyquist_velocity", "lat", "lon"):
                continue
            a = a.copy()
            if kind == "scramble":
                a[ix] = a[rng.permutation(ix)]
                if k in ("Zh", "v", "ldr"):
                    a[ix] = ma.array(a[ix].data + rng.normal(0, 3, a[ix].shape).astype("f4"), mask=ma.getmaskarray(a[ix]))
            else:
                a[ix] = a[ix[::-1]]
                if k == "Zh":
                    a[ix] += 12
                if k in ("rainfall_rate", "lwp"):
                    a[ix] = a[ix] * 3
            d[k] = a
    M = S["model"]
    far = M["time"] > tm if after else M["time"] < tm
    for k in ("temperature", "rh"):
        a = ma.array(M[k], copy=True)
        a[far] = a[far] + (8 if k == "temperature" else -0.1)
        M[k] = a
    return S


def compare(obs, A, B, sa, sb, kind, exempt):
    if not obs.check(int(sa.sum()) == int(sb.sum()) and np.array_equal(A["time"][sa], B["time"][sb]), "time-axis", lambda: f"{int(sa.sum())} vs {int(sb.sum())} rows"):
        return
    obs.n("rows_compared", sa.sum())
    nt = len(A["time"])
    # the wet-bulb solver (third party) iterates until the whole array has converged: its last digits
    # depend on all rows, and a threshold may flip in a row that is within 1e-3 K of it
    skip = np.zeros(int(sa.sum()), bool)
    dt = np.abs(np.array(A["Tw"].filled(0), dtype="f8")[sa] - np.array(B["Tw"].filled(0), dtype="f8")[sb])
    obs.check(bool((dt < 0.05).all()), "value-Tw", lambda: f"{kind}: wet-bulb temperature differs by {dt.max():.3g} K")
    if (dt > 0).any():
        rows = (np.array(A["category_bits"])[sa] != np.array(B["category_bits"])[sb]).any(1)
        if rows.sum() <= 5:
            skip = rows
            obs.n("rows_on_threshold", rows.sum())
    sa, sb = np.where(sa)[0][~skip], np.where(sb)[0][~skip]
    for k, a in A.items():
        if k in exempt or k not in B or not isinstance(a, np.ndarray) or a.ndim == 0 or a.shape[0] != nt or (k in ("height", "model_height")):
            continue
        x, y = a[sa], B[k][sb]
        mx, my = ma.getmaskarray(x), ma.getmaskarray(y)
        obs.n("values", mx.size)
        d = mx != my
        obs.check(not d.any(), f"mask-{k}", lambda: f"{kind}: {int(d.sum())} values, first {np.argwhere(d)[0].tolist()}")
        both = ~mx & ~my
        xv, yv = np.asarray(ma.filled(x, 0)), np.asarray(ma.filled(y, 0))
        if k == "Tw":
            continue
        if k == "insect_prob":
            yv = np.where(np.abs(xv - yv) < 0.03, xv, yv)
        d2 = both & ~((xv == yv) | ((xv != xv) & (yv != yv)))
        obs.check(not d2.any(), f"value-{k}", lambda: f"{kind}: {int(d2.sum())} values, first {np.argwhere(d2)[0].tolist()} {xv[d2][0]} vs {yv[d2][0]}")
    obs.check(set(A) == set(B), "variables", lambda: str(set(A) ^ set(B)))
