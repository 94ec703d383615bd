"""C24: shared numeric kernels against slow reference definitions; arguments must not be modified."""
import copy
import datetime
import tempfile

import netCDF4
import numpy as np
from numpy import ma
from scipy.stats import norm

from ..runner import Obs

ID, LEVEL = "C24", "exploration"
RULE = ("random arrays, masks, grids and parameters per kernel including ties, empty bins, all-masked input, gaps at the ends and single samples; each result compared "
        "with a slow definition and every argument compared with a copy taken before the call; non-trivial if every kernel was called; distinct by seed")
ASSUMPTIONS = ["values at distances within rounding of a documented threshold are not judged", "setbit works in place by design and is exempt from the argument monitor"]
KERNELS = []
UTC = datetime.timezone.utc


def kernel(f):
    KERNELS.append(f)
    return f


MIN = {}


def cases(tier, seed):
    n = 256 if tier == "quick" else 1500
    return [{"seed": seed * 100000 + i} for i in range(n)]


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    for _ in range(6):
        for k in KERNELS:
            obs.n(k.__name__)
            k(obs, rng)
    obs.nontrivial = all(obs.counts.get(k.__name__) for k in KERNELS)
    obs.sig = str(spec["seed"])
    obs.sample = {"kernels": len(KERNELS), "calls": obs.counts.get("calls", 0)}
    return obs


def snap(a):
    if isinstance(a, ma.MaskedArray):
        return ("ma", ma.filled(a, 0).copy(), ma.getmaskarray(a).copy())
    if isinstance(a, np.ndarray):
        return ("np", a.copy())
    if isinstance(a, (list, tuple)):
        return ("l", [snap(x) for x in a])
    if isinstance(a, dict):
        return ("d", {k: snap(v) for k, v in a.items()})
    return ("x", copy.copy(a))


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "ma":
        return np.array_equal(a[2], b[2]) and np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind == "f")
    if a[0] == "np":
        return np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind == "f")
    if a[0] == "l":
        return len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "d":
        return a[1].keys() == b[1].keys() and all(same(a[1][k], b[1][k]) for k in a[1])
    return a[1] == b[1]


def call(obs, f, *args, **kw):
    before = [snap(a) for a in args]
    r = f(*args, **kw)
    obs.n("calls")
    after = [snap(a) for a in args]
    bad = [i for i, (x, y) in enumerate(zip(before, after)) if not same(x, y)]
    obs.check(not bad, f"argument-modified-{f.__name__}", lambda: f"argument(s) {bad} of {f.__name__} changed")
    return r


def eq(obs, key, got, exp, tol=1e-9, mask=None, n=None):
    """Masked comparison; exp may be masked; mask = pixels not judged."""
    gm, em = ma.getmaskarray(ma.array(got)), ma.getmaskarray(ma.array(exp))
    if not obs.check(gm.shape == em.shape, f"{key}-shape", lambda: f"{gm.shape} expected {em.shape}"):
        return
    skip = np.zeros(gm.shape, bool) if mask is None else mask
    d = (gm != em) & ~skip
    obs.check(not d.any(), f"{key}-mask", lambda: f"{int(d.sum())} elements, first {np.argwhere(d)[0].tolist() if d.ndim else ''}: missing={bool(gm[d][0])}")
    ok = ~gm & ~em & ~skip
    g, e = np.array(ma.filled(ma.array(got), 0), float), np.array(ma.filled(ma.array(exp), 0), float)
    with np.errstate(all="ignore"):
        d2 = ok & ~(np.abs(g - e) <= tol * (1 + np.abs(e))) & ~((g == e))
    obs.check(not d2.any(), key, lambda: f"{int(d2.sum())} elements, first {np.argwhere(d2)[0].tolist() if d2.ndim else ''}: {g[d2][0]} expected {e[d2][0]}")


def rmask(rng, shape):
    p = rng.choice([0.0, 0.2, 0.6, 1.0], p=[.25, .4, .25, .1])
    return rng.random(shape) < p


def grid(rng, n, even=False):
    if even:
        return rng.uniform(-5, 5) + rng.uniform(0.1, 3) * np.arange(n)
    return rng.uniform(-5, 5) + np.cumsum(rng.uniform(0.1, 2, n))


# ------------------------------------------------------------------ time

@kernel
def k_time_grid(obs, rng):
    from cloudnetpy import utils
    s = int(rng.choice([1, 2, 5, 10, 15, 30, 60, 90, 120, 300, 600, 1800, 3600, 7, 11, 50]))
    t = call(obs, utils.time_grid, s)
    n = -(-86400 // s) if 86400 % s else 86400 // s
    obs.check(abs(len(t) - n) <= (86400 % s != 0), "time_grid-length", lambda: f"step {s}: {len(t)} expected {n}")
    eq(obs, "time_grid", t, (np.arange(len(t)) + .5) * s / 3600)


@kernel
def k_seconds(obs, rng):
    from cloudnetpy import utils
    n = int(rng.integers(1, 30))
    t = np.sort(rng.uniform(0, 86399, n)) + 86400 * int(rng.integers(0, 20000))
    if rng.random() < .3:
        t = np.round(t)
    h = call(obs, utils.seconds2hours, t)
    e = (t % 86400) / 3600
    if e[-1] == 0:
        e[-1] = h[-1] if h[-1] in (0, 24) else -1
    eq(obs, "seconds2hours", h, e)
    day = 86400 * int(rng.integers(1, 20000))
    end = np.append(np.sort(rng.integers(0, 86000, n)), 86400) + float(day)  # the last sample is the end of the day
    eq(obs, "seconds2hours-midnight", call(obs, utils.seconds2hours, end), np.append((end[:-1] - day) / 3600, 24))
    ep = datetime.datetime(int(rng.integers(1950, 2020)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), tzinfo=UTC)
    d = call(obs, utils.seconds2date, float(t[0]), ep)
    obs.check(abs((d - ep).total_seconds() - t[0]) < 1e-3, "seconds2date", lambda: f"{d} for {t[0]} s since {ep}")
    ds = [datetime.datetime(2022, 3, 5, tzinfo=UTC) + datetime.timedelta(seconds=float(x)) for x in np.round(t % 86400, 2)]
    g = call(obs, utils.datetime2decimal_hours, ds if rng.random() < .5 else np.array(ds))
    eq(obs, "datetime2decimal_hours", g, np.round(t % 86400, 2) / 3600, 1e-8)


@kernel
def k_valid_time(obs, rng):
    from cloudnetpy import utils
    from cloudnetpy.exceptions import ValidTimeStampError
    ep = datetime.datetime(2001, 1, 1, tzinfo=UTC)
    day = datetime.date(2001, 1, 1) + datetime.timedelta(days=int(rng.integers(0, 3)))
    n = int(rng.integers(1, 40))
    t = rng.uniform(0, 3 * 86400, n) if rng.random() < .8 else rng.uniform(0, 80000, n)
    t = np.round(t, 1)
    t = t[rng.integers(0, n, n)]
    keep = [x for x in sorted(set(t.tolist())) if ep.date() + datetime.timedelta(days=int(x // 86400)) == day]
    data = {"time": t, "a": rng.random(n), "b": ma.array(rng.random((n, 3)), mask=rmask(rng, (n, 3))), "c": rng.random((n, 2, 2)), "s": np.array(5.0), "x": 3.2}
    try:
        idx = call(obs, utils.find_valid_time_indices, t, ep, day)
        got = [float(t[i]) for i in idx]
        obs.check(got == keep, "find_valid_time_indices", lambda: f"{got[:5]} expected {keep[:5]}")
        r = call(obs, utils.screen_by_time, data, ep, day)
        for k in ("time", "a", "b", "c"):
            eq(obs, f"screen_by_time-{k}", r[k], data[k][idx])
        obs.check(r["x"] == 3.2 and r["s"] == 5.0, "screen_by_time-scalar", "scalars changed")
        obs.n("valid")
    except ValidTimeStampError:
        obs.check(not keep, "find_valid_time_indices-error", lambda: f"no valid timestamps reported but {len(keep)} are in the day")


@kernel
def k_dates(obs, rng):
    from cloudnetpy import utils
    a = datetime.date(2019, 12, 20) + datetime.timedelta(days=int(rng.integers(0, 800)))
    n = int(rng.integers(0, 60))
    r = list(call(obs, utils.date_range, a, a + datetime.timedelta(days=n)))
    obs.check(r == [a + datetime.timedelta(days=i) for i in range(n)], "date_range", "wrong dates")
    for fmt in ("%Y-%m-%d %H:%M:%S", "%Y-%m-%d", "%Y-%m-%dT%H:%M:%S", "%Y.%m.%d %H:%M"):
        e = call(obs, utils.get_epoch, f"{rng.choice(['seconds', 'hours'])} since {a.strftime(fmt)}")
        obs.check(e.date() == a and e.tzinfo is not None, "get_epoch", lambda: f"{e} for {a.strftime(fmt)}")


# ------------------------------------------------------------------ binning

@kernel
def k_rebin(obs, rng):
    from cloudnetpy import utils
    nb = int(rng.integers(2, 12))
    x_new = grid(rng, nb, even=True)
    st = x_new[1] - x_new[0]
    e = call(obs, utils.binvec, x_new)
    eq(obs, "binvec", e, x_new[0] - st / 2 + st * np.arange(nb + 1), 1e-9)
    n = int(rng.integers(1, 50))
    x = np.sort(rng.uniform(e[0] + 1e-6, e[-1] - 1e-6, n))
    if rng.random() < .3:
        x = x[(x < x_new[nb // 2]) | (x > x_new[nb // 2] + st)]
        n = len(x)
        if n == 0:
            return
    if rng.random() < .4:  # samples before the first and after the last bin belong to none
        x = np.concatenate([e[0] - np.sort(rng.uniform(.01, 5, 3))[::-1], x, e[-1] + np.sort(rng.uniform(.01, 5, 2))])
        n = len(x)
    ng = int(rng.integers(1, 5))
    a = ma.array(rng.normal(0, 5, (n, ng)), mask=rmask(rng, (n, ng)))
    b = np.floor((x - e[0]) / st).astype(int)
    near = np.abs((x - e[0]) / st - np.round((x - e[0]) / st)) < 1e-9
    if near.any():
        return
    for stat, fn in (("mean", np.mean), ("std", np.std), ("max", np.max)):
        nmin = int(rng.choice([1, 1, 2, 3]))
        mz = bool(rng.random() < .5)
        exp = ma.masked_all((nb, ng))
        for i in range(nb):
            for g in range(ng):
                v = a[b == i, g].compressed()
                if (b == i).sum() >= nmin and v.size:
                    s = fn(v)
                    if not (mz and s == 0):
                        exp[i, g] = s
        r, empty = call(obs, utils.rebin_2d, x, a, x_new, stat, nmin, mask_zeros=mz)
        tiny = np.abs(ma.filled(r, 1)) < 1e-6 if mz else None
        eq(obs, f"rebin_2d-{stat}", r, exp, 1e-5, tiny)
        obs.check(sorted(i for i in np.array(empty).tolist() if i < nb) == [i for i in range(nb) if (b == i).sum() < nmin], "rebin_2d-empty", lambda: f"{empty}")
    y = ma.array(rng.normal(0, 5, n), mask=rmask(rng, n))
    if rng.random() < .3:
        y[rng.integers(0, n)] = np.nan
    yy = ma.masked_invalid(y)
    exp = ma.masked_all(nb)
    for i in range(nb):
        v = yy[b == i].compressed()
        if v.size:
            exp[i] = v.mean()
    eq(obs, "rebin_1d", call(obs, utils.rebin_1d, x, y, x_new), exp, 1e-6)
    from cloudnetpy.cloudnetarray import CloudnetArray
    for d, k in ((a, "2d"), (yy, "1d")):
        c = CloudnetArray(d.copy(), "x")
        bad = c.rebin_data(x, x_new)
        inside = [i for i in range(nb) if not (b == i).any()] if k == "2d" else [i for i in range(nb) if not yy[b == i].count()]
        obs.check(sorted(i for i in np.array(bad).tolist() if i < nb) == inside, "rebin_data-empty", lambda: f"{k}: bins without data {bad}, expected {inside}")
        eq(obs, "rebin_data-" + k, c.data, exp if k == "1d" else utils.rebin_2d(x, a, x_new)[0], 1e-6)


# ------------------------------------------------------------------ filters

def neighbours(a, i, j, offs):
    return any(0 <= i + p < a.shape[0] and 0 <= j + q < a.shape[1] and a[i + p, j + q] for p, q in offs)


EIGHT = [(p, q) for p in (-1, 0, 1) for q in (-1, 0, 1) if p or q]
FOUR = [(1, 0), (-1, 0), (0, 1), (0, -1)]


@kernel
def k_filters(obs, rng):
    from cloudnetpy import utils
    sh = tuple(rng.integers(1, 12, 2))
    a = rng.random(sh) < rng.choice([0.05, 0.2, 0.5, 0.9, 1.0])
    for f, offs in ((utils.filter_isolated_pixels, EIGHT), (utils.filter_x_pixels, [(1, 0), (-1, 0)])):
        dt = rng.choice(["bool", "int"])
        r = np.asarray(call(obs, f, a.astype(dt))).astype(bool)
        exp = np.array([[a[i, j] and neighbours(a, i, j, offs) for j in range(sh[1])] for i in range(sh[0])], bool).reshape(sh)
        obs.check(np.array_equal(r, exp), f.__name__, lambda: f"{int((r != exp).sum())} pixels differ")
    mx, con = int(rng.integers(0, 8)), int(rng.integers(1, 3))
    r = call(obs, utils.remove_small_objects, a, mx, con)
    exp = np.zeros(sh, bool)
    seen = np.zeros(sh, bool)
    for i, j in np.argwhere(a):
        if seen[i, j]:
            continue
        st, comp = [(i, j)], []
        seen[i, j] = True
        while st:
            p = st.pop()
            comp.append(p)
            for o in (FOUR if con == 1 else EIGHT):
                q = (p[0] + o[0], p[1] + o[1])
                if 0 <= q[0] < sh[0] and 0 <= q[1] < sh[1] and a[q] and not seen[q]:
                    seen[q] = True
                    st.append(q)
        if len(comp) > mx:
            for p in comp:
                exp[p] = True
    obs.check(np.array_equal(np.asarray(r).astype(bool), exp), "remove_small_objects", lambda: f"max {mx} connectivity {con}")


@kernel
def k_bits(obs, rng):
    from cloudnetpy import utils
    a = rng.integers(0, 2 ** 12, (5, 4))
    n = int(rng.integers(0, 13))
    r = call(obs, utils.isbit, a, n)
    obs.check(np.array_equal(r, (a // 2 ** n) % 2 == 1), "isbit", lambda: f"bit {n}")
    b = utils.setbit(a.copy(), n)
    for k in range(14):
        want = np.ones(a.shape, bool) if k == n else (a // 2 ** k) % 2 == 1
        obs.check(np.array_equal(utils.isbit(b, k), want), "setbit", lambda: f"setting bit {n} changed bit {k}")
    for f in (utils.isbit, utils.setbit):
        try:
            f(a.copy(), -1)
            obs.bad("negative-bit", f"{f.__name__} accepted -1")
        except ValueError:
            pass


# ------------------------------------------------------------------ interpolation

def bil(x, y, z, xn, yn):
    out = np.zeros((len(xn), len(yn)))
    for i, a in enumerate(np.clip(xn, x[0], x[-1])):
        p = min(max(int(np.searchsorted(x, a, "right")) - 1, 0), len(x) - 2)
        u = (a - x[p]) / (x[p + 1] - x[p])
        for j, b in enumerate(np.clip(yn, y[0], y[-1])):
            q = min(max(int(np.searchsorted(y, b, "right")) - 1, 0), len(y) - 2)
            v = (b - y[q]) / (y[q + 1] - y[q])
            out[i, j] = (1 - u) * (1 - v) * z[p, q] + u * (1 - v) * z[p + 1, q] + (1 - u) * v * z[p, q + 1] + u * v * z[p + 1, q + 1]
    return out


@kernel
def k_interpolate_2d(obs, rng):
    from cloudnetpy import utils
    x, y = grid(rng, int(rng.integers(2, 8))), grid(rng, int(rng.integers(2, 8)))
    z = rng.normal(0, 10, (len(x), len(y)))
    xn = np.sort(np.concatenate([rng.uniform(x[0] - 1, x[-1] + 1, 5), x]))
    yn = np.sort(np.concatenate([rng.uniform(y[0] - 1, y[-1] + 1, 5), y]))
    eq(obs, "interpolate_2d", call(obs, utils.interpolate_2d, x, y, z, xn, yn), bil(x, y, z, xn, yn), 1e-8)


@kernel
def k_interpolate_2d_mask(obs, rng):
    from cloudnetpy import utils
    x, y = grid(rng, int(rng.integers(3, 8))), grid(rng, int(rng.integers(3, 8)))
    m = rng.random((len(x), len(y))) < rng.choice([0, .1, .3])
    m[0, :] = m[-1, :] = m[:, 0] = m[:, -1] = False
    c = rng.normal(0, 3, 3)
    z = c[0] + c[1] * x[:, None] + c[2] * y[None, :]
    data = ma.array(np.where(m, 999.0, z), mask=m)
    if rng.random() < .5:
        data = np.where(m, np.nan, z)  # NaN stands for missing
    xi, yi = np.sort(rng.uniform(x[0], x[-1], 6)), np.sort(rng.uniform(y[0], y[-1], 6))
    w = bil(x, y, m.astype(float), xi, yi)
    r = call(obs, utils.interpolate_2d_mask, x, y, data, xi, yi)
    exp = ma.array(c[0] + c[1] * xi[:, None] + c[2] * yi[None, :], mask=w >= 0.5)
    eq(obs, "interpolate_2d_mask", r, exp, 1e-7, np.abs(w - .5) < 1e-6)
    # nonlinear field: nodes reproduced, values within range of the cell
    z = rng.normal(0, 10, z.shape)
    r = call(obs, utils.interpolate_2d_mask, x, y, ma.array(z, mask=False), x, y)
    eq(obs, "interpolate_2d_mask-nodes", r, z, 1e-8)
    r = call(obs, utils.interpolate_2d_mask, x, y, ma.array(z, mask=np.zeros(z.shape, bool)), xi, yi)
    for i, a in enumerate(xi):
        p = min(int(np.searchsorted(x, a, "right")) - 1, len(x) - 2)
        for j, b in enumerate(yi):
            q = min(int(np.searchsorted(y, b, "right")) - 1, len(y) - 2)
            cell = z[p:p + 2, q:q + 2]
            obs.check(not ma.getmaskarray(r)[i, j] and cell.min() - 1e-9 <= r[i, j] <= cell.max() + 1e-9, "interpolate_2d_mask-range",
                      lambda: f"{r[i, j]} outside the range of its cell {cell.min()}..{cell.max()}")
    # outside
    yo = np.concatenate([yi, [y[-1] + 1.0, y[-1] + 2.0]])
    r = call(obs, utils.interpolate_2d_mask, x, y, ma.array(z, mask=False), xi, yo)
    obs.check(ma.getmaskarray(r)[:, -2:].all(), "interpolate_2d_mask-outside", "value outside the data range")
    z = c[0] + c[1] * x[:, None] + c[2] * y[None, :]
    r = call(obs, utils.interpolate_2d_mask, x, y, ma.array(z, mask=False), xi, yo, extrapolate=True)
    eq(obs, "interpolate_2d_mask-extrapolate", r, c[0] + c[1] * xi[:, None] + c[2] * yo[None, :], 1e-6)


@kernel
def k_interpolate_nearest(obs, rng):
    from cloudnetpy import utils
    x, y = grid(rng, int(rng.integers(2, 9))), grid(rng, int(rng.integers(2, 9)))
    z = ma.array(rng.normal(0, 10, (len(x), len(y))), mask=rmask(rng, (len(x), len(y))))
    xn = np.sort(np.concatenate([rng.uniform(x[0] - 1, x[-1] + 1, 6), x]))
    yn = np.sort(np.concatenate([rng.uniform(y[0] - 1, y[-1] + 1, 6), y]))

    def near(g, gn):
        d = np.abs(gn[:, None] - g[None, :])
        s = np.sort(d, axis=1)
        return d.argmin(axis=1), (gn < g[0]) | (gn > g[-1]), s[:, 1] - s[:, 0] < 1e-9
    ix, ox, tx = near(x, xn)
    iy, oy, ty = near(y, yn)
    tie = tx[:, None] | ty[None, :]
    exp = z[np.ix_(ix, iy)].copy()
    exp[ox[:, None] | oy[None, :]] = ma.masked
    eq(obs, "interpolate_2d_nearest", call(obs, utils.interpolate_2d_nearest, x, y, z, xn, yn), exp, 1e-12, tie)
    exp = z[:, iy].copy()
    exp[:, oy] = ma.masked
    eq(obs, "interpolate_2D_along_y", call(obs, utils.interpolate_2D_along_y, y, z, yn), exp, 1e-12, np.tile(ty, (len(x), 1)))
    plain = z.data.copy()
    exp = ma.array(plain[:, iy])
    exp[:, oy] = ma.masked
    eq(obs, "interpolate_2D_along_y-plain", call(obs, utils.interpolate_2D_along_y, y, plain, yn), exp, 1e-12, np.tile(ty, (len(x), 1)))


@kernel
def k_interpolate_1d(obs, rng):
    from cloudnetpy import utils
    n = int(rng.integers(2, 30))
    t = np.sort(rng.uniform(0, 3, n)) + rng.uniform(0, 20)
    if rng.random() < .2:
        t = np.sort(np.concatenate([t, t[:2]]))
        n = len(t)
    y = ma.array(rng.normal(0, 10, n), mask=rmask(rng, n))
    if np.unique(t[~ma.getmaskarray(y)]).size < 2:
        y = ma.array(y.data, mask=False)
    if rng.random() < .3:
        y = ma.array(y.data, mask=True)
    tn = np.sort(rng.uniform(t[0] - .5, t[-1] + .5, 25))
    mx = float(rng.choice([1, 2, 10, 60]))
    meth = "linear" if rng.random() < .7 else "nearest"
    g = call(obs, utils.interpolate_1d, t, y, tn, mx, method=meth)
    ok = ~ma.getmaskarray(y)
    tv, u = np.unique(t[ok], return_index=True)
    yv = y[ok].data[u]
    if not tv.size:
        obs.check(ma.getmaskarray(g).all() and g.shape == tn.shape, "interpolate_1d-all-missing", "values from missing data")
        return
    exp = ma.masked_all(tn.shape)
    skip = np.zeros(tn.shape, bool)
    for i, a in enumerate(tn):
        d = np.abs(tv - a)
        skip[i] = abs(d.min() - mx / 60) < 1e-9
        if meth == "nearest":
            s = np.sort(d)
            skip[i] |= len(s) > 1 and s[1] - s[0] < 1e-9
        if d.min() > mx / 60:
            continue
        if meth == "nearest":
            exp[i] = yv[d.argmin()]
        elif a <= tv[0]:
            exp[i] = yv[0]
        elif a >= tv[-1]:
            exp[i] = yv[-1]
        else:
            k = int(np.searchsorted(tv, a)) - 1
            w = (a - tv[k]) / (tv[k + 1] - tv[k])
            exp[i] = (1 - w) * yv[k] + w * yv[k + 1]
    eq(obs, f"interpolate_1d-{meth}", g, exp, 1e-8, skip)
    got = call(obs, utils.get_gap_ind, tv, tn, mx / 60)
    want = [i for i, a in enumerate(tn) if np.abs(tv - a).min() > mx / 60]
    obs.check(list(got) == want or skip.any(), "get_gap_ind", lambda: f"{got} expected {want}")
    # distances that are exact: a distance equal to the limit is no gap
    gx, gn = np.unique(rng.integers(0, 60, 8)) / 8, np.arange(0, 64) / 8
    th = float(rng.choice([.125, .25, .5, 1.0]))
    want = [i for i, a in enumerate(gn) if np.abs(gx - a).min() > th]
    obs.check(list(call(obs, utils.get_gap_ind, gx, gn, th)) == want, "get_gap_ind-limit", lambda: f"limit {th} h, grid {gx}")
    obs.check(list(utils.get_gap_ind(np.array([]), tn, 1.0)) == list(range(len(tn))), "get_gap_ind-empty", "empty grid")


# ------------------------------------------------------------------ arithmetic

@kernel
def k_db(obs, rng):
    from cloudnetpy import utils
    from cloudnetpy.cloudnetarray import CloudnetArray
    sh = (4, 5)
    a = ma.array(rng.uniform(-80, 60, sh), mask=rmask(rng, sh))
    for s in (10, 20):
        lin = call(obs, utils.db2lin, a, s)
        eq(obs, "db2lin", lin, ma.array(10 ** (a.data / s), mask=a.mask), 1e-9)
        eq(obs, "lin2db", call(obs, utils.lin2db, lin, s), a, 1e-9)
    p = a.data
    eq(obs, "lin2db-plain", utils.lin2db(call(obs, utils.db2lin, p)), p)
    c = CloudnetArray(ma.copy(a), "Z", units_from_user="dBZ")
    c.db2lin()
    eq(obs, "cloudnetarray-db2lin", c.data, ma.array(10 ** (a.data / 10), mask=a.mask), 1e-9)
    keep = snap(c.data)
    c.db2lin()
    obs.check(same(keep, snap(c.data)), "cloudnetarray-db2lin-twice", "converting twice changed the data")
    c.lin2db()
    eq(obs, "cloudnetarray-lin2db", c.data, a, 1e-9)
    x = np.array([1.0, 2, 4, 7]) * rng.uniform(.5, 3)
    eq(obs, "mdiff", call(obs, utils.mdiff, x), np.median(np.diff(x)))
    r = rng.uniform(0.1, 50, 6)
    v = rng.uniform(0.1, 50, 6)
    eq(obs, "calc_relative_error", call(obs, utils.calc_relative_error, r, v), (v - r) / r * 100)


@kernel
def k_l2norm(obs, rng):
    from cloudnetpy import utils
    sh = (3, 4)
    args = [ma.array(rng.normal(0, 3, sh), mask=rmask(rng, sh)) if rng.random() < .6 else rng.normal(0, 3, sh) for _ in range(int(rng.integers(1, 4)))]
    g = call(obs, utils.l2norm, *args)
    m = np.zeros(sh, bool)
    s = np.zeros(sh)
    for a in args:
        m |= ma.getmaskarray(a)
        s += ma.getdata(a) ** 2
    eq(obs, "l2norm", g, ma.array(np.sqrt(s), mask=m), 1e-9)
    v = tuple(rng.normal(0, 2, 4) for _ in range(2))
    w = tuple(rng.uniform(0, 3, 2))
    g = call(obs, utils.l2norm_weighted, (float(v[0][0]), float(v[1][0])), 0.7, w)
    eq(obs, "l2norm_weighted", np.array(float(g)), np.array(0.7 * np.hypot(w[0] * v[0][0], w[1] * v[1][0])))


@kernel
def k_cumsum_ffill(obs, rng):
    from cloudnetpy import utils
    a = rng.integers(0, 3, tuple(rng.integers(1, 9, 2))) * (rng.random() < .9)
    for ax in (0, 1):
        g = call(obs, utils.cumsumr, a, ax)
        e = np.zeros(a.shape)
        m = np.moveaxis(a, ax, 1)
        o = np.moveaxis(e, ax, 1)
        for i in range(m.shape[0]):
            s = 0
            for j in range(m.shape[1]):
                s = 0 if m[i, j] == 0 else s + m[i, j]
                o[i, j] = s
        eq(obs, "cumsumr", g, e)
    v = int(rng.integers(0, 3))
    for arr in (a, a[0]):
        g = call(obs, utils.ffill, arr, v)
        b = np.atleast_2d(arr).copy()
        for i in range(b.shape[0]):
            for j in range(1, b.shape[1]):
                if b[i, j] == v:
                    b[i, j] = b[i, j - 1]
        eq(obs, "ffill", g, b.reshape(arr.shape))


@kernel
def k_small(obs, rng):
    from cloudnetpy import utils
    x = grid(rng, 8, even=True)
    d = rng.uniform(0, 30)
    q = d / (x[1] - x[0])
    if abs(q % 1 - .5) > 1e-6:
        obs.check(call(obs, utils.n_elements, x, d) == round(q), "n_elements", lambda: f"{q}")
        obs.check(call(obs, utils.n_elements, x, d * 60, "time") == round(q), "n_elements-time", lambda: f"{q}")
    for v, w in ((1, True), (1.0, True), ([1], True), (np.array(1), True), (np.array([1]), True), (ma.array([2.0], mask=[True]), True), (np.array([1, 2]), False),
                 ([1, 2], False), (np.zeros((3, 2)), False)):
        obs.check(call(obs, utils.isscalar, v) == w, "isscalar", lambda: f"{v!r}")
    f = float(rng.uniform(5, 120))
    band = "X" if 8 < f < 12 else "Ka" if 27 < f < 40 else "W" if 75 < f < 110 else None
    try:
        obs.check(call(obs, utils.get_wl_band, f) == band, "get_wl_band", lambda: f"{f} GHz")
    except ValueError:
        obs.check(band is None, "get_wl_band-error", lambda: f"{f} GHz")
    h = np.sort(rng.uniform(10, 9000, 9))
    eq(obs, "path_lengths", call(obs, utils.path_lengths_from_ground, h), np.concatenate([[h[0]], h[1:] - h[:-1]]))
    a = float(rng.uniform(0, 89))
    eq(obs, "range_to_height", call(obs, utils.range_to_height, h, a), h * np.cos(a * np.pi / 180))
    gaps = np.diff(h) / 2
    eq(obs, "edges2mid-lower", call(obs, utils.edges2mid, h, "lower"), h + np.append(gaps, gaps[-1]))
    eq(obs, "edges2mid-upper", call(obs, utils.edges2mid, h, "upper"), h - np.insert(gaps, 0, gaps[0]))
    m = ma.array(rng.normal(0, 10, (4, 5)), mask=rmask(rng, (4, 5)))
    loc, sc, inv = float(rng.normal(0, 5)), float(rng.uniform(.1, 5)), bool(rng.random() < .5)
    g = call(obs, utils.array_to_probability, m, loc, sc, invert=inv)
    e = norm.cdf((m.data - loc) / sc)
    eq(obs, "array_to_probability", g, np.where(ma.getmaskarray(m), 0, 1 - e if inv else e), 1e-9)
    e = [i for i in range(4) if ma.getmaskarray(m)[i].all()]
    obs.check([int(i) for i in call(obs, utils.find_masked_profiles_indices, m)] == e, "find_masked_profiles", lambda: f"{e}")
    obs.check(call(obs, utils.is_all_masked, m) == ma.getmaskarray(m).all(), "is_all_masked", "")
    dd = {"a": m[:2], "b": 3}
    r = call(obs, utils.append_data, dd, "a", m[2:])
    eq(obs, "append_data", r["a"], m)
    r = call(obs, utils.append_data, dd, "c", m)
    eq(obs, "append_data-new", r["c"], m)
    t = call(obs, utils.transpose, h)
    obs.check(t.shape == (9, 1) and np.array_equal(t[:, 0], h), "transpose", "")
    obs.check(call(obs, utils.del_dict_keys, {"a": 1, "b": 2}, ("a", "z")) == {"b": 2}, "del_dict_keys", "")
    for s, v in (("5", 5), ("5.0", 5.0), ("-1e3", -1000.0)):
        w = call(obs, utils.str_to_numeric, s)
        obs.check(w == v and type(w) is type(v), "str_to_numeric", s)


# ------------------------------------------------------------------ files

@kernel
def k_files(obs, rng):
    from cloudnetpy import utils
    with tempfile.TemporaryDirectory() as tmp:
        names = list({"".join(rng.choice(list("abZ019_-."), size=int(rng.integers(1, 8)))) for _ in range(12)})
        names = [n + str(rng.choice([".lv1", ".LV1", ".nc", ".Nc", ".lv1.bak"])) for n in names if n[0] != "."]
        for n in names:
            open(f"{tmp}/{n}", "w").close()
        ext = str(rng.choice([".lv1", ".LV1", ".nc"]))
        want = [f"{tmp}/{n}" for n in sorted(set(names)) if n.lower().endswith(ext.lower())]
        obs.check(call(obs, utils.get_sorted_filenames, tmp, ext) == want, "get_sorted_filenames", lambda: f"{ext} of {sorted(names)}")
    if rng.random() < .15:
        with tempfile.TemporaryDirectory() as tmp:
            paths, have = [], []
            for i in range(6):
                paths.append(f"{tmp}/{i}.nc")
                have.append([v for v in "abc" if rng.random() < .6])
                with netCDF4.Dataset(paths[-1], "w") as nc:
                    for v in have[-1]:
                        nc.createVariable(v, "f4", ())
            ask = [v for v in rng.permutation(list("abc")) if rng.random() < .7]
            want = [q for q, h in zip(paths, have) if all(v in h for v in ask)]
            obs.check(call(obs, utils.get_files_with_variables, paths, ask) == want, "get_files_with_variables", lambda: f"{ask} of {have}")
    with netCDF4.Dataset("surface.nc", "w", diskless=True) as nc:
        nc.createDimension("time", 5)
        site, surf = float(rng.uniform(-10, 3000)), rng.uniform(0, 3000, 5)
        kind = int(rng.integers(3))
        if kind == 1:
            nc.createVariable("sfc_geopotential", "f8", ("time",))[:] = surf * 9.80665
        elif kind == 2:
            nc.createVariable("sfc_height", "f8", ("time",))[:] = surf
            nc.createVariable("sfc_geopotential", "f8", ("time",))[:] = surf * 9.80665 + 100
        g = utils.get_model_surface_altitude(nc, site)
        # within the differences of the constants of gravity in use (9.80665 and 9.81)
        want = np.broadcast_to(site, (5, 1)) if kind == 0 else surf[:, None]
        eq(obs, "model-surface-altitude", np.broadcast_to(g, (5, 1)), want, 4e-4)


# ------------------------------------------------------------------ clouds

@kernel
def k_clouds(obs, rng):
    from cloudnetpy.categorize import atmos_utils as au
    sh = (int(rng.integers(1, 6)), int(rng.integers(2, 12)))
    a = rng.random(sh) < rng.choice([0, .2, .5, .8, 1])
    b, t = call(obs, au.find_cloud_bases, a), call(obs, au.find_cloud_tops, a)
    p = np.pad(a, ((0, 0), (1, 1)))
    obs.check(np.array_equal(b, a & ~p[:, :-2]), "find_cloud_bases", "")
    obs.check(np.array_equal(t, a & ~p[:, 2:]), "find_cloud_tops", "")
    h = np.sort(rng.uniform(0, 9000, sh[1]))
    if rng.random() < .3:
        h[0] = 0
    lo = ma.masked_all(sh[0])
    hi = ma.masked_all(sh[0])
    for i in range(sh[0]):
        k = np.where(a[i])[0]
        if k.size:
            lo[i], hi[i] = h[k[0]], h[k[-1]]
    eq(obs, "find_lowest_cloud_bases", call(obs, au.find_lowest_cloud_bases, a.astype(int), h), lo)
    eq(obs, "find_highest_cloud_tops", call(obs, au.find_highest_cloud_tops, a.astype(int), h), hi)
    T, P = rng.uniform(250, 290, sh), rng.uniform(5e4, 1e5, sh)
    if not a.any():
        return
    import atmoslib
    ref = atmoslib.adiabatic_lwc_gradient(T, P)
    g = call(obs, au.fill_clouds_with_lwc_dz, T, P, a)
    e = np.zeros(sh)
    lw = np.zeros(sh)
    hg = h + 10
    dz = np.concatenate([[hg[0]], np.diff(hg)])
    for i in range(sh[0]):
        for j in range(sh[1]):
            if a[i, j]:
                e[i, j] = ref[i, j] if j == 0 or not a[i, j - 1] else e[i, j - 1]
                lw[i, j] = (dz[j] + (lw[i, j - 1] / e[i, j] if j and a[i, j - 1] else 0)) * e[i, j]
    eq(obs, "fill_clouds_with_lwc_dz", g, e, 1e-9)
    w = call(obs, au.calc_adiabatic_lwc, e, hg)
    eq(obs, "calc_adiabatic_lwc", np.asarray(w) * 1e6, lw * 1e6, 1e-6)
    lwp = ma.array(rng.uniform(0, 1, sh[0]), mask=rng.random(sh[0]) < .2)
    if sh[0] > 1:
        r = call(obs, au.normalize_lwc_by_lwp, ma.array(lw), lwp, hg)
        for i in range(sh[0]):
            if a[i].any() and not ma.getmaskarray(lwp)[i]:
                s = float((ma.filled(r[i], 0) * dz).sum())
                obs.check(abs(s - lwp[i]) < 1e-6, "normalize_lwc_by_lwp", lambda: f"{s} expected {lwp[i]}")


MIN.update({k.__name__: 150 for k in KERNELS})
MIN["calls"] = 8000
