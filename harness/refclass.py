"""Reference model of the documented hydrometeor classification.

Written from the documentation of the classification step and used as an oracle: given the
gridded observations it computes the rain flag, clutter mask, insect probability and category
bits independently of cloudnetpy. Only numpy and scipy are used."""
import numpy as np
from numpy import ma
from scipy import ndimage, stats
from scipy.ndimage import gaussian_filter
from scipy.signal import argrelextrema

T0 = 273.16
MM_H = 1e-3 / 3600
CROSS = ndimage.generate_binary_structure(2, 1)


def nel(x, d):
    return int(np.round(d / float(np.median(np.diff(x)))))


def up(b):
    return np.maximum.accumulate(np.asarray(b, bool), axis=1)


def runs(row):
    """(first, last) of every run of true values."""
    d = np.diff(np.concatenate([[0], row.astype(int), [0]]))
    return list(zip(np.where(d == 1)[0], np.where(d == -1)[0] - 1))


# --------------------------------------------------------------------- rain, clutter
def rain(o):
    zm = ma.getmaskarray(o["z"])
    n = zm.shape[0]
    first = int(np.argmin(zm.all(0)))
    g = first + 3
    z, v = o["z"][:, g], o["v"][:, g]
    ldr = o["ldr"] if o["ldr"] is not None else o["sldr"]
    ok = ~zm[:, g] & ~ma.getmaskarray(v)
    r = ok & (z.filled(-99) > 3) & (v.filled(99) < 0)
    if ldr is not None:
        r &= ~ma.getmaskarray(ldr[:, g]) & (ldr[:, g].filled(99) < -15)
    tm = ma.getmaskarray(o["tw"])
    c0 = int(np.where(~tm.any(0))[0][0])
    snowfree = np.array(o["tw"][:, c0] > T0 + 5)
    if o["rr"] is not None:
        rr, npt = o["rr"], o["np"]
        known = ~ma.getmaskarray(rr) & ~ma.getmaskarray(npt)
        dis = (rr.filled(0) > 0.25 * MM_H) & (npt.filled(0) > 30)
        # a logical and of a missing and a present value is missing
        r = np.where(known, dis, r)
        if o["wawa"] is not None:
            w = o["wawa"]
            wm = ma.getmaskarray(w)
            snowfree = np.where(wm, snowfree, (w.filled(0) >= 57) & (w.filled(0) <= 68))
    assert r.shape == (n,)
    return r & snowfree


def clutter(o, is_rain):
    v = o["v"]
    c = np.zeros(v.shape, bool)
    c[:, :10] = (np.abs(v[:, :10].filled(99)) < 0.05) & ~is_rain[:, None]
    return c


# --------------------------------------------------------------------- melting layer
def base_index(d, peak, dist, lim):
    s = max(peak - dist, 0)
    x = d[s:peak]
    return s + int(np.where(x > x[np.argmax(x)] / lim)[0][0])


def top_index(d, peak, n, dist, lim):
    x = d[peak:min(peak + dist, n)]
    return peak + int(np.where(x < x[np.argmin(x)] / lim)[0][-1]) + 1


def melting(o):
    tw, h = o["tw"], o["height"]
    out = np.zeros(tw.shape, bool)
    lo, hi = (-8, 6) if "gdas1" in o["model_type"].lower() else (-4, 3)
    ldr = o["ldr"]
    if ldr is not None:
        dl = ma.array(np.diff(ldr, axis=1)).filled(0)
        dl = np.hstack([dl, np.zeros((dl.shape[0], 1))])
    for i in range(tw.shape[0]):
        k = np.where((tw[i] > lo + T0) & (tw[i] < hi + T0))[0]
        if k.size == 0 or k[-1] == k[0]:
            continue
        s = slice(int(k[0]), int(k[-1]) + 1)
        z, v = o["z"][i, s], o["v"][i, s]
        nl = 0 if ldr is None else ma.count(ldr[i, s])
        if nl <= 3 and ma.count(v) <= 3:
            continue
        rng = None
        done = False
        if ldr is not None:
            try:
                lp, dp = ldr[i, s], dl[i, s]
                pk = int(np.argmax(lp))
                t = top_index(dp, pk, len(dp), 10, 2)
                b = base_index(dp, pk, 10, 2)
                if all((lp[pk] - lp[b] > 4, lp[pk] > -30, z[b] > -25, v[b] < -1.5)):
                    rng = (int(np.floor(b + (pk - b) / 2)), t)
                done = True
            except (ValueError, IndexError):
                pass
        if not done:
            w = o["width"][i, s] if o["width"] is not None else None
            rng = melting_v(v, w, h[s])
        if rng is not None:
            out[i, s.start + rng[0]:s.start + max(rng[0], rng[1])] = True
    return gaussian_filter(out.astype(float), (2, 0.1)) > 0.2


def melting_v(vp, w, h):
    x = np.copy(vp[:-1])
    d = np.diff(vp)
    x[d < 0] = 0
    x[d > 0] = 1
    cs = x.cumsum()
    inc = cs - np.maximum.accumulate(cs * (x == 0))
    t = int(np.argmax(inc))
    q = np.where(inc[:t] == 0)[0]
    if q.size == 0:
        return None
    b = q[-1]
    if w is not None:
        c = (w[b] - w[t] > 0.2, vp[t] - vp[b] > 0.5, 50 < h[t] - h[b] < 1000, vp[b] < -2)
    else:
        c = (vp[t] - vp[b] > 2, 50 < h[t] - h[b] < 1000, vp[b] < -2)
    return (round(t - (t - b) / 2), t) if all(c) else None


# --------------------------------------------------------------------- freezing
def t0_alt(tw, h):
    out = []
    for p in tw:
        k = np.where(p < T0)[0]
        if k.size == 0:
            out.append(2 * h[-1] - h[-2])
        elif k[0] == 0:
            out.append(h[0])
        else:
            a, b = k[0] - 1, k[0]
            f = (p[a] - T0) / (p[a] - p[b])
            out.append(float(h[a] + f * (h[b] - h[a])))
    return np.array(out)


def freezing(o, melt):
    """Returns (bits, pixels too close to the level to tell)."""
    h, t, tw = o["height"], o["time"], o["tw"]
    ta = t0_alt(tw, h)
    n = len(t)
    has = melt.any(1)
    mm = np.array([np.median(h[r]) if r.any() else np.nan for r in melt])
    if not has.any() and (ta <= h[0]).all():
        return np.ones(tw.shape, bool), np.zeros(tw.shape, bool)
    fa = mm.copy()
    for i in (0, -1):
        if not has[i] or fa[i] == 0:
            fa[i] = ta[i]
    win = int(np.round(240 / float(np.median(np.diff(t))) / 60))
    for i in range(n - win):
        if not has[i:i + win].any():
            fa[i + win // 2] = ta[i + win // 2]
    ok = ~np.isnan(fa)
    lev = np.interp(t, t[ok], fa[ok]) - 1
    return h[None, :] > lev[:, None], np.abs(h[None, :] - lev[:, None]) < 1e-6


# --------------------------------------------------------------------- droplets
def lwp_filled(o):
    l = o["lwp"]
    lv = l.filled(0)
    if ma.getmaskarray(l).all() or lv.sum() == 0:
        return np.zeros(len(o["time"]))
    ok = ~ma.getmaskarray(l) & (lv != 0)
    return np.interp(o["time"], o["time"][ok], lv[ok])


def lidar_liquid(o):
    h = o["height"]
    d = ma.array(np.diff(o["beta"], axis=1)).filled(0)
    b = o["beta"].filled(0)
    out = np.zeros(b.shape, bool)
    lw = lwp_filled(o)
    nb, nt = nel(h, 200), nel(h, 150)
    for i, p in zip(*argrelextrema(b, np.greater, order=4, axis=1)):
        if not b[i, p] > 1e-6:
            continue
        try:
            lo = base_index(d[i], p, nb, 4)
            hi = top_index(d[i], p, h.size, nt, 4)
        except (IndexError, ValueError):
            continue
        if (np.count_nonzero(b[i, lo:hi + 1]) >= 3 and h[hi] - h[lo] < 300 and h[p] - h[0] > 100
                and lw[i] >= 0 and (b[i, p] - b[i, hi]) / (h[hi] - h[p]) > 1e-7):
            out[i, lo:hi + 1] = True
    return out


def extend_top(o, liq, frz):
    out = liq.copy()
    g = nel(o["height"], 500)
    zm = ma.getmaskarray(o["z"])
    for i in range(liq.shape[0]):
        for _, t in runs(liq[i]):
            f = np.where(frz[i, t:])[0]
            last = len(frz[i, t:]) - 1
            k = min(last, f[0] + g) if f.size else last
            m = zm[i, t:t + k + 1]
            if m.any() and not m.all():
                out[i, t:t + int(np.where(m)[0][0])] = True
    return out


# --------------------------------------------------------------------- insects
def P(a, loc, scale, inv=False):
    m = ma.getmaskarray(a)
    x = np.asarray(ma.filled(a, 0.0))
    if inv:
        x, loc = -x, -loc
    return np.where(m, 0.0, stats.norm.cdf(x, loc=loc, scale=scale))


def insect_probability(o, melt, liq, is_rain):
    v = o["v"]
    sv = ma.array(gaussian_filter(v.filled(0), (5, 5)), mask=ma.getmaskarray(v))
    width = P(o["width"], 1, 0.3, True) if o["width"] is not None else 1
    tw = ma.array(o["tw"])
    others = P(o["z"], -20, 8, True) * P(tw, 274, 1) * width * P(sv, -3.5, 2)
    if "mira" in o["radar_type"].lower():
        others = others * P(ma.array(lwp_filled(o)), 0.15, 0.05, True)[:, None]
    if o["ldr"] is not None:
        main = P(o["ldr"], -25, 5) * P(tw, 268, 2)
    elif o["sldr"] is not None:
        ps = P(o["sldr"], -25, 5)
        echo = np.where(ma.getmaskarray(o["v_sigma"]), P(o["z"], -30, 5, True), 0)
        proxy = np.maximum(ps, np.maximum(P(o["v_sigma"], 0.2, 0.15), echo))
        wn = P(o["width"], 0.3, 0.1, True) if o["width"] is not None else 1
        main = proxy * wn * P(tw, 265, 3)
        hs = ps * P(tw, 268, 2)
        main = np.where(hs > 0.9, hs, main)
    else:
        main = np.zeros(v.shape)
    p = np.maximum(main, others)
    p[liq | up(melt)] = 0
    p[up(liq) & (others > 0)] = 0
    p[is_rain] = 0
    return p


# --------------------------------------------------------------------- falling
def falling0(o, liq, ins, clut):
    zm, bm, h = ma.getmaskarray(o["z"]), ma.getmaskarray(o["beta"]), o["height"]
    f = ~zm & ~clut & ~ins
    for i in range(f.shape[0]):
        z = o["z"][i]
        for b, t in runs(liq[i]):
            if t < h.size - 1 and zm[i, t + 1]:
                zz = z[b:t + 1].compressed()
                if zz.size > 1 and zz[-1] > zz[0]:
                    f[i, b:t + 1] = False
    agl = h - o["altitude"]
    cold = (ma.getdata(o["tw"]) < T0 - 15) & ~bm & ~liq & (agl >= 2000)[None, :]
    cnt = np.zeros(cold.shape, int)
    for k in range(6):
        cnt[:, k:] += (~bm)[:, :bm.shape[1] - k] if k else ~bm
    cold &= ~((agl < 4000)[None, :] & (cnt > 2))
    return f | cold


def classify(o):
    """-> dict with rain, clutter, insect_prob and the six category bits."""
    is_rain = rain(o)
    clut = clutter(o, is_rain)
    melt = melting(o)
    frz, near = freezing(o, melt)
    liq = lidar_liquid(o)
    if o.get("liquid_prob") is not None:  # liquid seen by the radar: above the highest lidar layer base, where freezing
        rad = o["liquid_prob"] > 0.55
        for i in range(rad.shape[0]):
            r = runs(liq[i])
            if r:
                rad[i, :r[-1][0]] = False
        liq = liq | (rad & frz)
    liq = extend_top(o, liq, frz)
    prob = insect_probability(o, melt, liq, is_rain)
    ins = prob > 0.8
    fall = falling0(o, liq, ins, clut)
    lw = o["lwp"]
    allow = ma.getmaskarray(lw) | (np.asarray(lw.filled(0)) > 0.005)
    bm = ma.getmaskarray(o["beta"])
    n, g = fall.shape
    for _ in range(5):
        warm = fall & ~liq & ~frz          # drizzle or rain
        cold = (fall & ~liq & frz) | (liq & frz)
        melt = melt.copy()
        melt[:, 1:] |= warm[:, :-1] & cold[:, 1:] & allow[:, None]
        am = up(melt)
        fall |= ins & am
        ins = ins & ~am
        orig = ins.copy()
        for x, y in zip(*np.where(melt)):
            if fall[x, :y].sum() <= 5:
                continue
            lo = max(y - 5, 0)
            s = orig[x, lo:y]
            fall[x, lo:y][s] = True
            ins[x, lo:y][s] = False
            for xx in range(max(x - 5, 0), min(x + 6, n)):
                if orig[xx, y]:
                    w = slice(max(y - 1, 0), y + 2)
                    fall[xx, w] |= ins[xx, w]
                    ins[xx, w] = False
    aer = ~bm & ~fall & ~liq
    sc = liq & (ma.getdata(o["tw"]) < T0 - 38)
    liq = liq & ~sc
    fall = fall | sc
    if o["ldr"] is not None:
        hi = ~ma.getmaskarray(o["ldr"]) & (o["ldr"].filled(-99) > -13)
        re = fall & frz & ~liq & ~melt & hi & (ma.getdata(o["tw"]) > T0 - 10) & ~up(melt)
        ins = ins | re
        fall = fall & ~re
        aer = aer | (re & ~bm)
    lab, k = ndimage.label(fall, CROSS)
    if k:
        size = np.bincount(lab.ravel(), minlength=k + 1)
        big = (size >= 100)
        big[0] = False
        near_big = ndimage.binary_dilation(big[lab], CROSS, iterations=2)
        re = ins & frz & near_big
        fall |= re
        ins &= ~re
        aer &= ~re
    lab, k = ndimage.label(fall, CROSS)
    size = np.bincount(lab.ravel(), minlength=k + 1)
    small = (size <= 10)
    small[0] = False
    small = small[lab]
    fall = fall & ~small
    small &= ~liq
    ins = ins | (small & ~frz)
    aer = aer | (small & ~bm)
    nl = ndimage.binary_dilation(liq | fall, CROSS)
    fc = clut & nl
    clut = clut & ~fc
    fall, ins, aer = fall | fc, ins & ~fc, aer & ~fc
    return {"rain": is_rain, "clutter": clut, "insect_prob": prob, "near_freezing": near,
            "droplet": liq, "falling": fall, "freezing": frz, "melting": melt, "aerosol": aer, "insect": ins}
