"""C28: figures show exactly what the file holds, where and when it was observed."""
import dataclasses
import hashlib
import os
import warnings

import netCDF4
import numpy as np
from numpy import ma

from .. import gen
from ..runner import Obs

ID, LEVEL = "C28", "exploration"
RULE = ("figures of generated files (time-height fields, status fields, time series, models, microwave radiometer brightness temperatures) with gaps around the limit of the file type, masked profiles, partly masked "
        "fields, moving sites, uneven grids, tops below and above the figure, every plot option, are drawn by generate_figure; artists of the figure and the written image are read back and compared with the file; "
        "distinct by file kind, variables and seed")
ASSUMPTIONS = ["artists found through the public matplotlib interface stand for what is drawn; the position of the axes is also looked up in the pixels of the image",
               "colour ranges are those of the plot metadata given in the options or of the package's table", "fields smoothed in time (microwave radiometer profiles) are judged by bounds"]
MIN = {"figures": 230, "cells": 90000, "blank": 60000, "gaps": 1500, "short_gaps": 10000, "status_cells": 30000, "labels": 400, "points": 12000, "average": 4000, "pixels": 200, "errors": 25, "unchanged": 250, "log": 25000,
       "agl": 80, "amsl": 25, "flagged": 1000, "tb": 30, "masked_time": 3000, "wind": 600, "bounded": 8}
warnings.filterwarnings("ignore")

LIMIT = {"mwr-multi": 35, "weather-station": 12, "doppler-lidar-wind": 75, "doppler-lidar": 75, "epsilon-lidar": 75, "radar": 5, "weather-radar": 20}
HIDDEN = None
W, LB, BL, PU, ST, DP, OR, YG, BR, SR, PI = "#ffffff", "#6cffec", "#209ff3", "#bf9aff", "#a0b0bb", "#464ab9", "#ffa500", "#c7fa3a", "#cebc89", "#e64a23", "#b43757"
YE, RO, GR, LG, SKY, SEA, DS, RED = "#ffe744", "#748269", "#3cb371", "#70eb5d", "#cdf5f6", "#646f5e", "#76a9ab", "#f57150"
ICE = [HIDDEN, ("Reliable", GR), ("Uncorrected", OR), ("Corrected", LG), ("Ice from lidar", YE), HIDDEN, ("Clear above rain", SKY), ("Positive temp.", SEA)]
# codes as the definition attributes of the products list them
STATUS = {
    "target_classification": [HIDDEN, ("Droplets", LB), ("Drizzle or rain", BL), ("Drizzle & droplets", PU), ("Ice", ST), ("Ice & droplets", DP), ("Melting ice", OR), ("Melting & droplets", YG), ("Aerosols", BR), ("Insects", SR),
                              ("Aerosols & insects", PI)],
    "detection_status": [HIDDEN, ("Lidar only", YE), ("Uncorrected atten.", RO), ("Radar & lidar", GR), HIDDEN, ("Radar only", LG), HIDDEN, ("Corrected atten.", SKY), ("Clutter", SR), HIDDEN],
    "signal_source_status": [("Clear sky", W), ("Radar & lidar", GR), ("Radar only", ST), ("Lidar only", YE)],
    "iwc_retrieval_status": ICE, "ier_retrieval_status": ICE,
    "lwc_retrieval_status": [("No liquid", W), ("Reliable", GR), ("Adjusted", LG), ("New pixel", YE), ("Invalid LWP", SEA), HIDDEN, HIDDEN],
    "drizzle_retrieval_status": [HIDDEN, ("Reliable", GR), ("Below melting", LG), ("Unfeasible", RED), ("Drizzle-free", OR), ("Rain", SEA)],
    "der_retrieval_status": [HIDDEN, ("Reliable", GR), ("Mixed phase", LG), ("Unfeasible", RED), ("Surrounding ice", ST)],
    "radar_attenuation_status": [HIDDEN, ("Negligible", GR), ("Minor", LG), ("Moderate", YE), ("Severe", RED), ("Unquantifiable", RO), ("Undetected", SKY)],
}
STATUS["lwc_retrieval_status"][4] = ("Invalid LWP", RO)
# documented units of the figures, others are drawn as they are
MM_H, MM, C = (3600000, 0, "mm h$^{-1}$"), (1000, 0, "mm"), (1, -273.15, "°C")
UNITS = {"rainfall_rate": MM_H, "snowfall_rate": MM_H, "precipitation_rate": MM_H, "rainfall_amount": MM, "snowfall_amount": MM, "precipitation_amount": MM, "air_pressure": (0.01, 0, "hPa"), "relative_humidity": (100, 0, "%"),
         "rh": (100, 0, "%"), "air_temperature": C, "temperature": C, "Tw": C, "T_sensor": C, "cloud_top_height_agl": (0.001, 0, "Height (km AGL)")}
FIELDS = {"Z": (-60, 40, 0), "v": (-8, 8, 0), "beta": (-8, -3, 1), "iwc": (-8, -2, 1), "lwc": (-6, -2, 1), "ldr": (-40, 0, 0), "width": (-3, 1, 1), "Tw": (200, 310, 0), "radar_gas_atten": (0, 8, 0), "drizzle_N": (2, 11, 1),
          "Do_error": (0, 1, 0), "v_sigma": (-3, 1, 1), "epsilon": (-8, 0, 1), "insect_prob": (0, 1, 0), "some_field": (-5, 5, 0)}
SERIES = {"radar": ["lwp", "zenith_angle"], "categorize": ["lwp", "rainfall_rate"], "weather-station": ["air_temperature", "relative_humidity", "air_pressure", "rainfall_rate", "rainfall_amount", "wind_speed", "wind_direction"],
          "disdrometer": ["rainfall_rate", "n_particles"], "mwr": ["lwp", "iwv"], "mwr-multi": ["lwp"], "mwr-single": ["lwp", "iwv"], "classification": ["cloud_top_height_agl", "cloud_base_height_agl"], "lidar": ["zenith_angle"]}


def cases(tier, seed):
    m = 2 if tier == "quick" else 5
    out = []
    plan = [("field", 70), ("status", 50), ("series", 60), ("wind", 16), ("model", 24), ("tb", 24), ("tops", 16), ("smooth", 12), ("error", 30), ("drops", 12)]
    for k, (kind, n) in enumerate(plan):
        out += [{"seed": seed * 1000000 + k * 1000 + i, "kind": kind} for i in range(n * m)]
    return out


# ---- files ------------------------------------------------------------------------------------------
def times(rng, limit_min, size=(12, 90)):
    """sorted times with gaps well below, just below, just above and well above the limit"""
    step = float(rng.choice([0.1, 0.25, 0.5, 0.8])) * min(limit_min, 10)
    t = [float(rng.choice([rng.uniform(0, 0.9) * limit_min, rng.uniform(1.1, 3) * limit_min, 0.001]))]
    jitter = rng.random() < 0.4
    n = int(rng.integers(*size))
    end = 1440 - float(rng.choice([rng.uniform(0, 0.9) * limit_min, rng.uniform(1.1, 30) * limit_min, 0.01]))
    while len(t) < n and t[-1] < end:
        d = step * (rng.uniform(0.6, 1.4) if jitter else 1)
        if rng.random() < 0.12:
            d = limit_min * float(rng.choice([0.6, 0.97, 1.03, 1.5, 4, 8]))
        t.append(t[-1] + d)
    if rng.random() < 0.5:  # up to the end of the day
        last = t[-1]
        if last < end - 2 * limit_min:
            t += list(np.linspace(end - 3 * step, end, 4)) if end - 3 * step > last + 1.1 * limit_min else []
    t = np.array([x for x in t if x <= 1440])
    return t / 60


def heights(rng, alt):
    n = int(rng.integers(8, 60))
    top = float(rng.choice([3000, 7000, 11000, 12500, 16000]))
    if rng.random() < 0.3:
        h = np.cumsum(rng.uniform(0.5, 1.5, n))
        h = h / h[-1] * top
    else:
        h = np.linspace(top / n * 0.7, top, n)
    return h + alt


def holes(rng, a):
    m = np.zeros(a.shape, bool)
    style = rng.integers(6)
    if style == 1:
        m = rng.random(a.shape) < 0.3
    elif style == 2:
        m[rng.random(a.shape[0]) < 0.3] = True
    elif style == 3:
        m = rng.random(a.shape) < 0.6
        m[: a.shape[0] // 4] = True
    elif style == 4 and a.ndim == 2:
        m[:, a.shape[1] // 2:] = True
    elif style == 5:
        m[-max(1, a.shape[0] // 3):] = True
    return ma.array(a, mask=m)


def create(rng, path, ftype, t, date=(2021, 3, 5)):
    nc = netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC")
    nc.createDimension("time", len(t))
    nc.year, nc.month, nc.day = f"{date[0]}", f"{date[1]:02d}", f"{date[2]:02d}"
    nc.location, nc.source, nc.cloudnet_file_type = "Palaiseau", "Some radar\nSome lidar", ftype
    add(nc, "time", t, ("time",), "Time UTC", "hours since 2021-03-05 00:00:00 +00:00", "f4" if rng.random() < 0.5 else "f8")
    return nc


def add(nc, name, data, dims, long_name, units, dtype="f4"):
    v = nc.createVariable(name, dtype, dims, fill_value=gen.filler('', name, data, dtype) if ma.isMaskedArray(data) else None)
    v[:] = data
    v.long_name, v.units = long_name, units
    return v


def field(rng, name, shape):
    lo, hi, log = FIELDS[name]
    a = rng.uniform(lo, hi, shape)
    a = 10 ** a if log else a
    if log and rng.random() < 0.3:
        a[rng.random(shape) < 0.05] = 0
    return holes(rng, a)


def add_grid(rng, nc, alt, h):
    nc.createDimension("height", len(h))
    km = False
    add(nc, "height", h / (1000 if km else 1), ("height",), "Height above mean sea level", "m")
    if rng.random() < 0.3:
        add(nc, "altitude", alt + rng.uniform(-15, 15, nc.dimensions["time"].size), ("time",), "Altitude", "m")
    else:
        add(nc, "altitude", np.float32(alt), (), "Altitude", "m")


def options(rng, **kw):
    from cloudnetpy.plotting.plotting import PlotParameters
    o = {"dpi": float(rng.choice([60, 75, 90])), "max_y": int(rng.choice([12, 12, 4, 8, 15])), "title": bool(rng.random() < 0.8), "subtitle": bool(rng.random() < 0.8), "mark_data_gaps": bool(rng.random() < 0.8),
         "grid": bool(rng.random() < 0.3), "edge_tick_labels": bool(rng.random() < 0.3), "show_sources": bool(rng.random() < 0.3), "minor_ticks": bool(rng.random() < 0.7), "plot_above_ground": bool(rng.random() < 0.65)}
    if rng.random() < 0.3:
        o["footer_text"] = str(rng.choice(["short", "A rather long footer that will have to be wrapped on several lines by the plotting routine " * 2]))
    o.update(kw)
    return PlotParameters(**o)


# ---- drawing and reading back -------------------------------------------------------------------------
def draw(obs, path, variables, opts, png, key):
    import matplotlib.figure
    import matplotlib.pyplot as plt
    from cloudnetpy.plotting import generate_figure
    seen = []
    orig = matplotlib.figure.Figure.savefig

    def spy(self, *a, **k):
        seen.append(self)
        return orig(self, *a, **k)
    before, sha, params = plt.get_fignums(), digest(path), dict(matplotlib.rcParams)
    given = dataclasses.replace(opts) if opts is not None else None
    asked = list(variables)
    matplotlib.figure.Figure.savefig = spy
    try:
        dims = generate_figure(path, variables, show=False, output_filename=png, options=opts)
    except Exception as err:  # noqa: BLE001
        dims = err
    finally:
        matplotlib.figure.Figure.savefig = orig
    obs.check(plt.get_fignums() == before, "figure-left-open", lambda: f"{key}: figures {plt.get_fignums()} open after the call, before it {before}")
    obs.check(digest(path) == sha, "file-changed", key)
    obs.check(opts == given and variables == asked, "arguments-changed", lambda: f"{key}: options {opts} were {given}, variables {variables} were {asked}")
    obs.check({k: v for k, v in matplotlib.rcParams.items() if k in params and params[k] != v} == {}, "settings-changed", key)
    obs.n("unchanged")
    try:
        netCDF4.Dataset(path, "r+").close()
    except OSError as err:
        obs.bad("file-left-open", f"{key}: {err}")
    return dims, (seen[-1] if seen else None)


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def main_axes(fig):
    """axes of the data from top to bottom"""
    return sorted([a for a in fig.axes if a.get_position().width > 0.3], key=lambda a: -a.get_position().y0)


def image_of(ax):
    ims = list(ax.images) + [c for c in ax.get_children() if type(c).__name__ in ("PcolorImage",)]
    ims += [c for c in ax.collections if type(c).__name__ == "QuadMesh"]
    return list(dict.fromkeys(ims))


def cells(im):
    """edges in x and y and the array [y, x] of an image"""
    a = ma.masked_invalid(im.get_array())
    if hasattr(im, "_Ax") and hasattr(im, "_Ay"):
        x, y = np.asarray(im._Ax), np.asarray(im._Ay)
        return x, y, a.reshape(len(y) - 1, len(x) - 1) if a.ndim == 1 else a
    if hasattr(im, "get_coordinates"):
        c = np.asarray(im.get_coordinates())
        return c[0, :, 0], c[:, 0, 1], a.reshape(c.shape[0] - 1, c.shape[1] - 1)
    x0, x1, y0, y1 = im.get_extent()
    a = a if im.origin == "lower" else a[::-1]
    return np.linspace(x0, x1, a.shape[1] + 1), np.linspace(y0, y1, a.shape[0] + 1), a


def at(edges, values):
    i = np.searchsorted(edges, values, side="right") - 1
    return np.clip(i, 0, len(edges) - 2), (values >= edges[0]) & (values <= edges[-1])


def hatches(ax):
    """boxes (x0, x1, y0, y1) of the hatched areas"""
    out = []
    for c in ax.collections:
        if getattr(c, "get_hatch", lambda: None)():
            for p in c.get_paths():
                v = p.vertices
                out.append((v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max()))
    return out


def judge_common(obs, nc, fig, axes, variables, opts, dims, png, key):
    obs.n("figures")
    obs.check(len(axes) == len(variables), "panels", lambda: f"{key}: {len(axes)} panels for {variables}")
    for ax, (name, ind) in zip(axes, variables):
        v = nc.variables[name]
        title = v.long_name + (f" (channel {ind + 1})" if name == "tb" and ind is not None else "")
        obs.check(ax.get_title() == (title if opts.title else ""), "title", lambda: f"{key}: title {ax.get_title()!r} of {name}, its name is {title!r}")
        obs.check(tuple(ax.get_xlim()) == (0, 24), "x-range", lambda: f"{key}: {ax.get_xlim()}")
        texts = " ".join(t.get_text() for t in ax.texts)
        if opts.show_sources:
            src = getattr(v, "source", nc.source)
            obs.check(src in texts, "source", lambda: f"{key}: {texts!r} does not name {src!r}")
        labels = {float(t): l.get_text() for t, l in zip(ax.get_xticks(), ax.get_xticklabels())}
        for t, l in labels.items():
            want = f"{int(t):02d}:00" if 0 < t < 24 or opts.edge_tick_labels else ""
            obs.check(l == want, "time-label", lambda: f"{key}: label {l!r} at {t} h")
    sup = fig._suptitle.get_text() if fig._suptitle is not None else ""
    obs.check(sup == ("Palaiseau, 5 Mar 2021" if opts.subtitle else ""), "subtitle", lambda: f"{key}: {sup!r}")
    obs.check(axes[-1].get_xlabel() == "Time (UTC)", "x-label", lambda: f"{key}: {axes[-1].get_xlabel()!r}")
    if opts.footer_text:
        shown = " ".join(" ".join(t.get_text() for t in fig.texts).split())
        obs.check(" ".join(opts.footer_text.split()) in shown, "footer", lambda: f"{key}: {shown!r}")
    if dims is not None:
        judge_pixels(obs, dims, png, key)


def judge_pixels(obs, dims, png, key):
    """the returned dimensions are those of the image, its margins end at the frames of the panels"""
    import matplotlib.image
    px = matplotlib.image.imread(png)
    h, w = px.shape[:2]
    obs.n("pixels")
    obs.check(abs(w - dims.width) <= 1 and abs(h - dims.height) <= 1, "size", lambda: f"{key}: image of {w} x {h} pixels, returned {dims}")
    dark = px[..., :3].mean(axis=2) < 0.75
    x0, x1, y0, y1 = dims.margin_left, w - dims.margin_right, dims.margin_top, h - dims.margin_bottom
    if not obs.check(0 < x0 < x1 <= w and 0 < y0 < y1 <= h, "margins", lambda: f"{key}: {dims} of {w} x {h}"):
        return
    inner = slice(max(x0 + 8, 0), x1 - 8)
    for name, at_, line in (("left", x0, lambda i: dark[y0 + 5:y0 + 25, i].mean()), ("right", x1 - 1, lambda i: dark[y0 + 5:y0 + 25, i].mean()),
                            ("top", y0, lambda i: dark[i, inner].mean()), ("bottom", y1 - 1, lambda i: dark[i, inner].mean())):
        n = w if name in ("left", "right") else h
        best = max(line(i) for i in range(max(0, at_ - 1), min(n, at_ + 2)))
        obs.check(best > 0.7, f"margin-{name}", lambda: f"{key}: no frame within a pixel of {at_}, {dims}, best {best:.2f}")


def shown_heights(nc, opts):
    """heights of the figure in km"""
    f = lambda n: nc.variables[n][:].astype(float)  # noqa: E731
    if "height" in nc.variables:
        h = f("height")
        return (h - np.median(f("altitude")) if opts.plot_above_ground else h) / 1000
    if "range" in nc.variables:
        return f("range") / 1000
    return f("diameter") * 1000


def expected_gaps(t, limit_h):
    """blank intervals of the day and pairs that are not"""
    eps = 1e-6
    gaps, rest = [], []
    for a, b in zip(t[:-1], t[1:]):
        d = b - a
        if abs(d - limit_h) > 1e-5:
            (gaps if d > limit_h else rest).append((a, b))
    if abs(t[0] - limit_h) > 1e-5:
        (gaps if t[0] > limit_h else rest).append((0.0, t[0]))
    if abs(24 - t[-1] - limit_h) > 1e-5:
        (gaps if 24 - t[-1] > limit_h else rest).append((t[-1], 24.0))
    return [(a, b) for a, b in gaps if b - a > eps], rest


def judge_gaps(obs, ax, t, limit_h, marked, key, top=None):
    """gaps longer than the limit are hatched over their whole length, nothing else is"""
    gaps, rest = expected_gaps(t, limit_h)
    boxes = hatches(ax)
    y0, y1 = sorted(ax.get_ylim())
    full = [b for b in boxes if b[2] <= y0 + 1e-6 * max(1, abs(y0)) and b[3] >= y1 - 1e-6 * max(1, abs(y1))]
    above = [b for b in boxes if b not in full]
    if not marked:
        obs.check(not boxes, "hatched-though-off", lambda: f"{key}: {len(boxes)} hatched areas although gaps are not to be marked")
        return gaps
    for a, b in gaps:
        obs.n("gaps")
        inside = [x for x in full if x[0] <= a + 0.005 and x[1] >= b - 0.005]
        obs.check(len(inside) == 1, "gap-not-marked", lambda: f"{key}: gap {a:.4f}-{b:.4f} h, limit {limit_h * 60:.0f} min, hatched {[(round(x[0], 4), round(x[1], 4)) for x in full]}")
    for a, b in rest:
        obs.n("short_gaps")
        hit = [x for x in full if min(x[1], b) - max(x[0], a) > 1e-4]
        obs.check(not hit, "data-hatched", lambda: f"{key}: {a:.4f}-{b:.4f} h is no gap (limit {limit_h * 60:.0f} min), hatched {hit}")
    if top is not None:
        if top < y1 - 1e-6:
            obs.check(len(above) == 1 and abs(above[0][2] - top) < 1e-3 and above[0][3] >= y1 - 1e-6 and above[0][0] <= 0 and above[0][1] >= 24, "top-not-marked", lambda: f"{key}: data end at {top} km, hatched {above}")
        else:
            obs.check(not above, "top-marked", lambda: f"{key}: data end at {top} km, hatched {above}")
    return gaps


def judge_field(obs, nc, ax, name, meta, opts, limit, key, model=False):
    t, h = nc.variables["time"][:].astype(float), np.asarray(shown_heights(nc, opts))
    data = nc.variables[name][:]
    mul, plus, label = UNITS.get(name, (1, 0, None))
    want = data.astype(float) * mul + plus
    zeros = name == "cloud_fraction" or meta.mask_zeros
    if zeros:
        want = ma.masked_where(data == 0, want)
    lo, hi = meta.plot_range if meta.plot_range is not None else (None, None)
    log = meta.log_scale
    if log:
        want = ma.array(np.log10(np.maximum(want.filled(1), lo)), mask=ma.getmaskarray(want))
    ims = image_of(ax)
    if not obs.check(len(ims) == 1, "one-image", lambda: f"{key}: {len(ims)} images"):
        return
    im = ims[0]
    x, y, a = cells(im)
    tt = t
    if model:
        good = np.flatnonzero(~ma.getmaskarray(data).all(axis=1))
        tt = t[np.unique(np.clip(np.append(good, good[-1] + 1), 0, len(t) - 1))]  # the last profile is drawn until the next time step
        limit = round(60 * np.diff(t).min())
    cols, xin = at(x, t)
    inside = (h <= opts.max_y) & (h >= 0)
    rows, yin = at(y, h)
    got = a[np.ix_(rows, cols)].T
    sel = np.zeros(want.shape, bool)
    sel[np.ix_(xin, inside & yin)] = True
    lost = ~ma.getmaskarray(want) & inside[None, :] & ~sel
    obs.check(not lost.any(), "not-drawn", lambda: f"{key}: {lost.sum()} valid cells outside the drawn image")
    wm, gm = ma.getmaskarray(want), ma.getmaskarray(got)
    bad = sel & (wm != gm)
    obs.check(not bad.any(), "mask", lambda: f"{key}: {bad.sum()} cells, first time {t[np.argwhere(bad)[0][0]]:.4f} height {h[np.argwhere(bad)[0][1]]:.3f}: missing in the file {wm[tuple(np.argwhere(bad)[0])]}, drawn {not gm[tuple(np.argwhere(bad)[0])]}")
    both = sel & ~wm & ~gm
    span = max(abs(float(want.max())), abs(float(want.min())), 1e-30) if both.any() else 1
    w, g = want.filled(0), ma.filled(got, 0)
    off = both & (np.abs(w - g) > 2e-5 * np.maximum(np.abs(w), 1e-3 * span))
    obs.check(not off.any(), "value", lambda: f"{key}: {off.sum()} cells, first drawn {g[tuple(np.argwhere(off)[0])]} file {w[tuple(np.argwhere(off)[0])]}")
    obs.n("cells", both.sum())
    obs.n("blank", (sel & wm).sum())
    if log:
        obs.n("log", both.sum())
    obs.n("agl" if opts.plot_above_ground else "amsl")
    gaps = judge_gaps(obs, ax, tt, limit / 60, opts.mark_data_gaps, key, top=float(h[-1]))
    for p, q in gaps:
        for s in np.linspace(p + 0.004, q - 0.004, 7) if q - p > 0.02 else []:
            c, inx = at(x, np.array([s]))
            obs.check(not inx[0] or ma.getmaskarray(a[:, c[0]]).all(), "gap-filled", lambda: f"{key}: data drawn at {s:.4f} h inside the gap {p:.4f}-{q:.4f}")
    # colour scale
    vmin, vmax = im.get_clim()
    if lo is not None:
        wlo, whi = (np.log10(lo), np.log10(hi)) if log else (lo, hi)
        obs.check(np.isclose(vmin, wlo) and np.isclose(vmax, whi), "colour-range", lambda: f"{key}: colours from {vmin} to {vmax}, documented {lo} to {hi}, logarithmic {log}")
    elif both.any():
        obs.check(vmin <= g[both].min() + 1e-6 * span and vmax >= g[both].max() - 1e-6 * span, "colour-range", lambda: f"{key}: colours from {vmin} to {vmax}, data from {g[both].min()} to {g[both].max()}")
    obs.check(im.get_cmap().name == meta.cmap, "colour-map", lambda: f"{key}: {im.get_cmap().name} instead of {meta.cmap}")
    cb = im.colorbar
    if not obs.check(cb is not None, "no-colour-bar", key):
        return
    text = cb.ax.get_ylabel()
    units = label if label is not None else (meta.clabel if meta.clabel is not None else None)
    if units is not None:
        obs.check(text == str(units), "colour-units", lambda: f"{key}: {text!r} instead of {units!r}")
    if log:
        for tick, l in zip(cb.get_ticks(), cb.ax.get_yticklabels()):
            obs.n("labels")
            obs.check(l.get_text() == f"10$^{{{int(round(tick))}}}$", "log-label", lambda: f"{key}: {l.get_text()} at {tick}")


def judge_status(obs, nc, ax, name, opts, limit, key):
    from matplotlib.colors import to_hex
    t, h = nc.variables["time"][:].astype(float), np.asarray(shown_heights(nc, opts))
    data = nc.variables[name][:]
    table = STATUS[name]
    im = image_of(ax)[0]
    x, y, a = cells(im)
    ticks = {round(float(v), 3): l.get_text() for v, l in zip(im.colorbar.get_ticks(), im.colorbar.ax.get_yticklabels())}
    shown = [e for e in table if e is not None]
    obs.check([ticks[k] for k in sorted(ticks)] == [e[0] for e in shown], "labels", lambda: f"{key}: {ticks}")
    obs.n("labels", len(ticks))
    cols, xin = at(x, t)
    rows, yin = at(y, h)
    inside = (h <= opts.max_y) & (h >= 0)
    m = ma.getmaskarray(data)
    for i in np.flatnonzero(xin):
        for j in np.flatnonzero(inside & yin):
            v = a[rows[j], cols[i]]
            if m[i, j] or table[int(data[i, j])] is None:
                obs.n("blank")
                if v is not ma.masked:
                    obs.bad("status-drawn", f"{key}: code {data[i, j]} at {t[i]:.4f} h {h[j]:.3f} km is drawn as {v}")
                continue
            obs.n("status_cells")
            label, colour = table[int(data[i, j])]
            if v is ma.masked:
                obs.bad("status-missing", f"{key}: code {data[i, j]} at {t[i]:.4f} h {h[j]:.3f} km is not drawn")
                continue
            rgba = im.cmap(im.norm(v))
            if to_hex(rgba) != colour or ticks.get(round(float(v), 3)) != label:
                obs.bad("status-label", f"{key}: code {data[i, j]} ({label}, {colour}) is drawn as {ticks.get(round(float(v), 3))!r} {to_hex(rgba)}")
    judge_gaps(obs, ax, t, limit / 60, opts.mark_data_gaps, key, top=float(h[-1]))


def lines(ax, average):
    """points of the lines with markers, or the segments of the averages"""
    out = []
    for l in ax.lines:
        x, y = ma.masked_invalid(np.ma.asarray(l.get_xdata(orig=True))), ma.masked_invalid(ma.asarray(l.get_ydata(orig=True)))
        if len(x) == 2 and len(set(np.asarray(y).tolist())) == 1 and set(np.asarray(x).tolist()) == {0, 1}:
            continue  # zero line
        if (l.get_linewidth() > 0 and l.get_linestyle() not in ("None", "")) == average:
            out.append((l, x, y))
    return out


def judge_series(obs, nc, ax, name, opts, limit, key, data=None, meta=None, flags=None, average=True, marked=None, suspicious=None):
    t = nc.variables["time"][:].astype(float)
    data = nc.variables[name][:] if data is None else data
    mul, plus, label = UNITS.get(name, (1, 0, None))
    want = ma.masked_invalid(data.astype(float) * mul + plus)
    m = ma.getmaskarray(want)
    if label is not None:
        obs.check(ax.get_ylabel() == label, "y-units", lambda: f"{key}: {ax.get_ylabel()!r} instead of {label!r}")
    pts = lines(ax, False)
    main = [p for p in pts if p[0].get_color() in ("lightblue", "steelblue")]
    if not obs.check(len(main) == 1, "one-line", lambda: f"{key}: {len(main)} lines"):
        return
    _, x, y = main[0]
    ok = ~(ma.getmaskarray(x) | ma.getmaskarray(y))
    gx, gy = np.asarray(x)[ok].astype(float), np.asarray(y)[ok].astype(float)
    wx, wy = t[~m], want.filled(0)[~m]
    obs.n("points", len(wx))
    obs.n("masked_time", m.sum())
    same = len(gx) == len(wx) and np.allclose(np.sort(gx), np.sort(wx), atol=1e-5)
    if obs.check(same, "points", lambda: f"{key}: {len(gx)} points drawn, {len(wx)} valid samples in the file"):
        o = np.argsort(gx, kind="stable")
        obs.check(np.allclose(gy[o], wy, rtol=2e-5, atol=1e-9 + 2e-5 * np.abs(wy).max() if len(wy) else 0), "point-values", lambda: f"{key}: largest difference {np.abs(gy[o] - wy).max()}")
    if len(wy):
        y0, y1 = ax.get_ylim()
        obs.check(y0 <= wy.min() + 1e-6 * abs(wy.min()) and y1 >= wy.max() - 1e-6 * abs(wy.max()), "y-range", lambda: f"{key}: axis from {y0} to {y1}, data from {wy.min()} to {wy.max()}")
    judge_gaps(obs, ax, t, limit / 60, opts.mark_data_gaps, key)
    for colour, sel in (marked or {}).items():
        p = [q for q in pts if q[0].get_color() == colour]
        sel = sel & ~m if len(p) == 0 or True else sel
        px = np.concatenate([np.asarray(q[1])[~(ma.getmaskarray(q[1]) | ma.getmaskarray(q[2]))] for q in p]) if p else np.array([])
        obs.n("flagged", sel.sum())
        obs.check(len(px) == sel.sum() and np.allclose(np.sort(px), t[sel], atol=1e-5), "flagged", lambda: f"{key}: {len(px)} points in {colour}, {sel.sum()} flagged samples")
    avg = lines(ax, True)
    if not average:
        obs.check(not avg, "average-drawn", lambda: f"{key}: {len(avg)} curves")
        return
    judge_average(obs, t, want, m | (flags if flags is not None else False), avg, limit, key)


def judge_average(obs, t, want, invalid, avg, limit, key):
    """curves of the running mean: over valid samples, never across a gap or a missing sample"""
    v = want.filled(np.nan)
    covered = np.zeros(len(t), int)
    for _, x, y in avg:
        gx, gy = np.asarray(x, float), ma.filled(y.astype(float), np.nan)
        idx = [int(np.argmin(np.abs(t - a))) for a in gx]
        obs.check(np.allclose(t[idx], gx, atol=1e-5), "average-times", lambda: f"{key}: curve at {gx[:3]}")
        if not idx:
            continue
        obs.check(idx == list(range(idx[0], idx[-1] + 1)) and not invalid[idx].any(), "average-across-missing", lambda: f"{key}: curve through {gx[0]:.3f}-{gx[-1]:.3f} h with missing samples inside")
        d = np.diff(gx)
        obs.check(not (d > limit / 60 + 1e-5).any(), "average-across-gap", lambda: f"{key}: curve crosses a gap of {d.max() * 60:.1f} min, limit {limit}")
        covered[idx] += 1
        # block of consecutive valid samples the mean is taken over
        i0, i1 = idx[0], idx[-1] + 1
        while i0 > 0 and not invalid[i0 - 1]:
            i0 -= 1
        while i1 < len(t) and not invalid[i1]:
            i1 += 1
        block = v[i0:i1]
        if len(block) == 1:
            expect = block
        else:
            width = 5 / 60 / np.median(np.diff(t[i0:i1]))
            if abs(width - round(width)) < 1e-3:
                continue  # the width of the window depends on rounding
            n = max(1, int(width))
            n += n % 2 == 0
            k = n // 2
            expect = np.array([np.mean([block[min(max(i + j, 0), len(block) - 1)] for j in range(-k, k + 1)]) for i in range(len(block))])
        obs.n("average", len(idx))
        ref = expect[idx[0] - i0:idx[-1] + 1 - i0]
        scale = np.nanmax(np.abs(block)) + 1e-30
        obs.check(np.allclose(gy, ref, rtol=1e-4, atol=1e-5 * scale), "average", lambda: f"{key}: curve {gy[:4]} running mean {ref[:4]}")
    miss = (covered == 0) & ~invalid
    obs.check(not miss.any() and covered.max() <= 1, "average-missing", lambda: f"{key}: {miss.sum()} valid samples without a curve, at most {covered.max()} curves per sample")


# ---- kinds of figures ----------------------------------------------------------------------------------
def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    path, png = os.path.join(tmp, "in.nc"), os.path.join(tmp, "out.png")
    names = globals()[f"do_{spec['kind']}"](obs, rng, path, png, spec)
    obs.sig = spec["kind"], spec["seed"], str(names)
    return obs


def start(rng, path, ftype, size=(12, 90)):
    limit = LIMIT.get(ftype, 10)
    t = times(rng, limit, size)
    while len(t) < 6:
        t = times(rng, limit, size)
    return create(rng, path, ftype, t), t, limit


def meta_of(name, ftype):
    from cloudnetpy.plotting.plot_meta import ATTRIBUTES, PlotMeta
    return ATTRIBUTES.get(ftype, {}).get(name, ATTRIBUTES["fallback"].get(name, PlotMeta()))


def custom_meta(rng, name):
    from cloudnetpy.plotting.plot_meta import PlotMeta
    lo, hi, log = FIELDS.get(name, (-5, 5, 0))
    return PlotMeta(cmap=str(rng.choice(["viridis", "RdBu_r", "Blues"])), clabel="own label", plot_range=(10.0 ** int(lo + 1), 10.0 ** int(hi)) if log else (lo + 0.1 * (hi - lo), hi - 0.1 * (hi - lo)), log_scale=bool(log), mask_zeros=bool(rng.random() < 0.3),
                    contour=bool(rng.random() < 0.3))


def finish(obs, nc, path, png, opts, wanted, spec, key):
    dims, fig = draw(obs, path, list(wanted), opts, png, key)
    if isinstance(dims, Exception):
        obs.bad(f"failed:{type(dims).__name__}", f"{key}: {dims}")
        return None, None
    if not obs.check(fig is not None and os.path.exists(png), "no-image", key):
        return None, None
    return dims, fig


def do_field(obs, rng, path, png, spec):
    ftype = str(rng.choice(["radar", "categorize", "iwc", "lidar", "epsilon-lidar", "weather-radar"]))
    nc, t, limit = start(rng, path, ftype)
    alt = float(rng.choice([0, 12, 650]))
    add_grid(rng, nc, alt, heights(rng, alt))
    names = [str(n) for n in rng.choice(list(FIELDS), size=int(rng.integers(1, 4)), replace=False)]
    shape = nc.dimensions["time"].size, nc.dimensions["height"].size
    for n in names:
        v = add(nc, n, field(rng, n, shape), ("time", "height"), f"Name of {n}", "m s-1")
        if rng.random() < 0.5:
            v.source = "Own source"
    nc.close()
    meta = custom_meta(rng, names[0]) if len(names) == 1 and rng.random() < 0.5 else None
    opts = options(rng, plot_meta=meta)
    asked = list(names)
    if rng.random() < 0.3:
        asked.insert(int(rng.integers(len(asked) + 1)), "not_there")
    key = f"{ftype} {names}"
    dims, fig = finish(obs, nc, path, png, opts, asked, spec, key)
    if fig is None:
        return names
    with netCDF4.Dataset(path) as nc:
        axes = main_axes(fig)
        judge_common(obs, nc, fig, axes, [(n, None) for n in names], opts, dims, png, key)
        for ax, n in zip(axes, names):
            judge_field(obs, nc, ax, n, meta or meta_of(n, ftype), opts, limit, f"{key}: {n}")
            obs.check(ax.get_ylabel() == ("Height (km AGL)" if opts.plot_above_ground else "Height (km AMSL)"), "y-label", lambda: f"{key}: {ax.get_ylabel()}")
            obs.check(tuple(ax.get_ylim()) == (0, opts.max_y), "y-range", lambda: f"{key}: {ax.get_ylim()}")
    return names


def do_status(obs, rng, path, png, spec):
    name = list(STATUS)[spec["seed"] % len(STATUS)]
    nc, t, limit = start(rng, path, "classification")
    alt = float(rng.choice([0, 350]))
    add_grid(rng, nc, alt, heights(rng, alt))
    shape = nc.dimensions["time"].size, nc.dimensions["height"].size
    codes = rng.integers(0, len(STATUS[name]), shape)
    if rng.random() < 0.3:
        codes[:] = rng.choice(len(STATUS[name]), size=2)[rng.integers(0, 2, shape)]
    data = holes(rng, codes) if rng.random() < 0.5 else codes
    add(nc, name, data, ("time", "height"), f"Name of {name}", "1", "i4")
    rain = None
    if name == "signal_source_status" and rng.random() < 0.8:
        rain = (rng.random(shape[0]) < 0.3).astype(int)
        add(nc, "rain_detected", rain, ("time",), "Rain detected", "1", "i4")
    nc.close()
    opts = options(rng)
    key = f"{name}"
    dims, fig = finish(obs, nc, path, png, opts, [name], spec, key)
    if fig is None:
        return name
    with netCDF4.Dataset(path) as nc:
        axes = main_axes(fig)
        judge_common(obs, nc, fig, axes, [(name, None)], opts, dims, png, key)
        judge_status(obs, nc, axes[0], name, opts, limit, key)
        if rain is not None:
            tt = nc.variables["time"][:]
            pts = [np.asarray(l.get_xdata())[~ma.getmaskarray(ma.asarray(l.get_ydata()))] for l in axes[0].lines if l.get_color() == "red"]
            got = np.concatenate(pts) if pts else np.array([])
            obs.n("flagged", rain.sum())
            obs.check(len(got) == rain.sum() and np.allclose(got, tt[rain > 0]), "rain", lambda: f"{key}: {len(got)} rainy profiles drawn, {rain.sum()} in the file")
    return name


def series(rng, n, name):
    a = {"rainfall_rate": rng.exponential(3e-7, n), "rainfall_amount": np.cumsum(rng.exponential(1e-5, n)), "lwp": rng.normal(0.05, 0.1, n), "air_temperature": rng.uniform(260, 300, n), "relative_humidity": rng.uniform(0, 1, n),
         "air_pressure": rng.uniform(95000, 105000, n), "cloud_top_height_agl": rng.uniform(200, 11000, n), "cloud_base_height_agl": rng.uniform(200, 11000, n)}.get(name, rng.uniform(-3, 20, n))
    if rng.random() < 0.1:
        a[:] = a[0]
    return a


def do_series(obs, rng, path, png, spec):
    ftype = list(SERIES)[spec["seed"] % len(SERIES)]
    nc, t, limit = start(rng, path, ftype, (40, 400))
    names = [n for n in SERIES[ftype] if n != "wind_direction"]
    names = [str(x) for x in rng.choice(names, size=min(len(names), int(rng.integers(1, 4))), replace=False)]
    n = len(t)
    for name in names:
        a = series(rng, n, name)
        add(nc, name, holes(rng, a) if rng.random() < 0.7 else ma.array(a), ("time",), f"Name of {name}", "kg m-2")
    status = flags = None
    if ftype == "classification":
        status = rng.integers(0, 5, n)
        add(nc, "cloud_top_height_status", status, ("time",), "Status", "1", "i4")
    if ftype in ("mwr-multi", "mwr-single"):
        flags = {}
        for name in names:
            if rng.random() < 0.8:
                flags[name] = (rng.random(n) < 0.25) * rng.integers(1, 4, n)
                add(nc, f"{name}_quality_flag", flags[name], ("time",), "Flag", "1", "i4")
    nc.close()
    opts = options(rng)
    key = f"{ftype} {names}"
    dims, fig = finish(obs, nc, path, png, opts, names, spec, key)
    if fig is None:
        return names
    with netCDF4.Dataset(path) as nc:
        axes = main_axes(fig)
        judge_common(obs, nc, fig, axes, [(n_, None) for n_ in names], opts, dims, png, key)
        for ax, name in zip(axes, names):
            marked, bad = {}, None
            if flags is not None and name in flags:
                marked, bad = {"salmon": flags[name] > 0}, flags[name] > 0
            if status is not None and not marked:
                top = name == "cloud_top_height_agl"  # the flags are those of the tops, not of the bases
                marked = {"orange": ((status == 1) | (status == 2)) & top, "red": ((status == 3) | (status == 4)) & top}
            judge_series(obs, nc, ax, name, opts, limit, f"{key}: {name}", flags=bad, average=meta_of(name, ftype).moving_average, marked=marked)
    return names


def do_wind(obs, rng, path, png, spec):
    nc, t, limit = start(rng, path, "weather-station", (40, 400))
    n = len(t)
    d = (rng.uniform(0, 360) + np.cumsum(rng.normal(0, float(rng.choice([2, 15])), n))) % 360
    s = rng.uniform(0.5, 12, n)
    m = np.zeros(n, bool)
    if rng.random() < 0.6:
        m = rng.random(n) < 0.15
    ms = m | ((rng.random(n) < 0.1) if rng.random() < 0.5 else False)
    add(nc, "wind_direction", ma.array(d, mask=m), ("time",), "Wind from direction", "degree")
    add(nc, "wind_speed", ma.array(s, mask=ms), ("time",), "Wind speed", "m s-1")
    nc.close()
    opts = options(rng)
    dims, fig = finish(obs, nc, path, png, opts, ["wind_direction"], spec, "wind")
    if fig is None:
        return "wind"
    with netCDF4.Dataset(path) as nc:
        axes = main_axes(fig)
        judge_common(obs, nc, fig, axes, [("wind_direction", None)], opts, dims, png, "wind")
        tt, dd, ss = (nc.variables[k][:].astype(float) for k in ("time", "wind_direction", "wind_speed"))
        pts = lines(axes[0], False)
        x, y = pts[0][1], pts[0][2]
        ok = ~(ma.getmaskarray(x) | ma.getmaskarray(y))
        obs.check(ok.sum() == (~m).sum() and np.allclose(np.sort(np.asarray(y)[ok]), np.sort(dd.compressed()), atol=1e-3), "points", "wind direction")
        judge_gaps(obs, axes[0], tt, limit / 60, opts.mark_data_gaps, "wind")
        for _, x, y in lines(axes[0], True):
            gx, gy = np.asarray(x, float), ma.filled(y.astype(float), np.nan)
            idx = np.array([int(np.argmin(np.abs(tt - a))) for a in gx])
            if len(idx) == 0:
                continue
            obs.check(not (np.diff(gx) > limit / 60 + 1e-5).any(), "average-across-gap", lambda: f"wind: {np.diff(gx).max()}")
            obs.check(not (m | ms)[idx].any(), "average-across-missing", lambda: f"wind: mean curve through {gx[(m | ms)[idx]][:3]} h where direction or speed is missing")
            i0, i1 = idx[0], idx[-1] + 1
            use = m | ms
            while i0 > 0 and not use[i0 - 1]:
                i0 -= 1
            while i1 < n and not use[i1]:
                i1 += 1
            k = 0
            if i1 - i0 > 1:
                w = 15 / 60 / np.median(np.diff(np.asarray(tt)[i0:i1]))
                if abs(w - round(w)) < 1e-3:
                    continue
                w = max(1, int(w))
                k = (w + (w % 2 == 0)) // 2
            for i, g in zip(idx, gy):
                sel = np.clip(np.arange(i - k, i + k + 1), i0, i1 - 1)
                if np.isnan(g) or ms[sel].any():
                    continue  # breaks of the curve at north, unknown speed
                u, v = (ss.filled(0)[sel] * np.cos(np.deg2rad(dd.filled(0)[sel]))).mean(), (ss.filled(0)[sel] * np.sin(np.deg2rad(dd.filled(0)[sel]))).mean()
                if np.hypot(u, v) < 0.05:
                    continue
                obs.n("wind")
                diff = (g - np.rad2deg(np.arctan2(v, u)) + 180) % 360 - 180
                obs.check(abs(diff) < 0.1, "wind-average", lambda: f"mean direction {g:.2f} drawn at {tt[i]:.3f} h, vector mean {np.rad2deg(np.arctan2(v, u)) % 360:.2f}")
    return "wind"


def do_model(obs, rng, path, png, spec):
    step = float(rng.choice([1, 1, 3]))
    t = np.arange(0, 24.5, step)
    nc = create(rng, path, "model", t)
    nk = int(rng.integers(8, 40))
    nc.createDimension("level", nk)
    nt = len(t)
    h = np.cumsum(rng.uniform(100, 500, nk))[None, :] * (1 + rng.normal(0, 0.001, (nt, 1)))
    add(nc, "height", h, ("time", "level"), "Height above ground", "m")
    temp = 290 - 6.5e-3 * h + rng.normal(0, 1, (nt, 1))
    press = 101325 * np.exp(-h / 8000)
    gone = np.zeros(nt, bool)
    if rng.random() < 0.6:
        gone = rng.random(nt) < 0.2
        gone[:2] = False
        if rng.random() < 0.5:
            gone[nt - int(rng.integers(1, nt // 2)):] = True
    m = np.broadcast_to(gone[:, None], h.shape)
    source = "ECMWF"
    fields_ = {"temperature": temp, "pressure": press, "uwind": rng.uniform(-60, 60, h.shape), "q": 10 ** rng.uniform(-6, -1.5, h.shape), "cloud_fraction": np.where(rng.random(h.shape) < 0.5, 0, rng.random(h.shape)),
               "rh": rng.uniform(0, 1.2, h.shape)}
    for n, a in fields_.items():
        add(nc, n, ma.array(a, mask=m), ("time", "level"), f"Name of {n}", "1")
    alt = None
    if rng.random() < 0.7:
        add(nc, "sfc_geopotential", np.full(nt, 230.0 * 9.80665), ("time",), "Geopotential", "m2 s-2")
        alt = 230.0
    nc.source = source
    nc.close()
    names = [str(x) for x in rng.choice(list(fields_), size=int(rng.integers(1, 3)), replace=False)]
    opts = options(rng, plot_above_ground=bool(rng.random() < 0.5 or alt is None))
    key = f"model {names}"
    dims, fig = finish(obs, nc, path, png, opts, names, spec, key)
    if fig is None:
        return names
    with netCDF4.Dataset(path) as nc:
        axes = main_axes(fig)
        judge_common(obs, nc, fig, axes, [(n, None) for n in names], opts, dims, png, key)
        hh = nc.variables["height"][:].mean(axis=0) + (0 if opts.plot_above_ground else alt)
        fake = Fake(nc, {"height": hh + (0 if opts.plot_above_ground else 0), "altitude": ma.array([0.0])})
        for ax, n in zip(axes, names):
            judge_field(obs, fake, ax, n, meta_of(n, "model"), opts, 60, f"{key}: {n}", model=True)
    return names


class Fake:
    """file whose heights are already those of the figure"""
    def __init__(self, nc, over):
        self.nc, self.source = nc, nc.source
        self.variables = {**nc.variables, **over}


def do_tb(obs, rng, path, png, spec):
    ftype = "mwr-l1c"
    nc, t, limit = start(rng, path, ftype, (40, 400))
    n, nf = len(t), int(rng.integers(2, 15))
    nc.createDimension("frequency", nf)
    freq = np.sort(rng.uniform(22, 58, nf))
    add(nc, "frequency", freq, ("frequency",), "Frequency", "GHz")
    tb = rng.uniform(10, 300, (n, nf))
    if rng.random() < 0.3:
        tb[rng.random((n, nf)) < 0.1] = np.nan
    add(nc, "tb", holes(rng, tb), ("time", "frequency"), "Microwave brightness temperature", "K")
    flag = (rng.random((n, nf)) < 0.2) * rng.integers(1, 9, (n, nf))
    add(nc, "quality_flag", flag, ("time", "frequency"), "Quality flag", "1", "i4")
    bad = np.zeros(n, bool)
    if rng.random() < 0.6:
        point, zen = (rng.random(n) < 0.15).astype(int), np.where(rng.random(n) < 0.1, rng.uniform(6, 60, n) * rng.choice([-1, 1], n), rng.uniform(-4, 4, n))
        add(nc, "pointing_flag", point, ("time",), "Pointing flag", "1", "i4")
        add(nc, "zenith_angle", zen, ("time",), "Zenith angle", "degree")
        bad = (point != 0) | (np.abs(zen) > 5)
    nc.close()
    inds = [int(i) for i in rng.choice(nf, size=min(nf, int(rng.integers(1, 4))), replace=False)]
    opts = options(rng)
    key = f"{ftype} tb {inds}"
    dims, fig = finish(obs, nc, path, png, opts, [f"tb_{i}" for i in inds], spec, key)
    if fig is None:
        return inds
    with netCDF4.Dataset(path) as nc:
        axes = main_axes(fig)
        judge_common(obs, nc, fig, axes, [("tb", i) for i in inds], opts, dims, png, key)
        for ax, i in zip(axes, inds):
            data = ma.masked_invalid(nc.variables["tb"][:, i])
            data[bad] = ma.masked
            fl = (flag[:, i] > 0) & ~bad
            obs.n("tb")
            obs.check(any(f"{freq[i]:.2f} GHz" in x.get_text() for x in ax.texts), "frequency", lambda: f"{key}: {[x.get_text() for x in ax.texts]} for {freq[i]:.2f} GHz")
            flags = fl | (flag[:, i] > 0)
            nanny = np.isnan(nc.variables["tb"][:, i].filled(0)).any()
            judge_series(obs, nc, ax, "tb", opts, limit, f"{key}: channel {i}", data=data, flags=flags, average=meta_of("tb", ftype).moving_average and not nanny if not nanny else True, marked={"salmon": fl}) if not nanny else None
    return inds


def do_tops(obs, rng, path, png, spec):
    """status of the cloud top decides the colour of its points"""
    return do_series(obs, rng, path, png, {"seed": list(SERIES).index("classification")})


def do_smooth(obs, rng, path, png, spec):
    ftype = str(rng.choice(["mwr-single", "mwr-multi"]))
    nc, t, limit = start(rng, path, ftype)
    add_grid(rng, nc, 100.0, heights(rng, 100.0))
    shape = nc.dimensions["time"].size, nc.dimensions["height"].size
    a = 280 + np.cumsum(rng.normal(0, 0.3, shape), axis=0)
    m = np.zeros(shape, bool)
    m[rng.random(shape[0]) < 0.2] = True
    add(nc, "temperature", ma.array(a, mask=m), ("time", "height"), "Temperature", "K")
    flag = np.zeros(shape[0], int)
    for _ in range(3):
        i = int(rng.integers(0, max(1, shape[0] - 6)))
        flag[i:i + int(rng.integers(2, 6))] = 1
    add(nc, "temperature_quality_flag", flag, ("time",), "Flag", "1", "i4")
    nc.close()
    opts = options(rng, max_y=12)
    key = f"{ftype} temperature"
    dims, fig = finish(obs, nc, path, png, opts, ["temperature"], spec, key)
    if fig is None:
        return "smooth"
    with netCDF4.Dataset(path) as nc:
        ax = main_axes(fig)[0]
        im = image_of(ax)[0]
        x, y, arr = cells(im)
        tt, h = nc.variables["time"][:].astype(float), shown_heights(nc, opts)
        data = nc.variables["temperature"][:]
        cols, xin = at(x, tt)
        rows, yin = at(y, h)
        inside = (h >= 0) & (h <= opts.max_y)
        got = arr[np.ix_(rows, cols)].T
        lo, hi = data.min(axis=0) - 273.15, data.max(axis=0) - 273.15
        obs.n("bounded")
        for i in range(len(tt)):
            gm, wm = ma.getmaskarray(got)[i][inside], ma.getmaskarray(data)[i][inside]
            obs.check((gm == wm).all(), "mask", lambda: f"{key}: profile {i}")
            g = ma.filled(got[i], 0)
            sel = inside & ~ma.getmaskarray(data)[i]
            obs.check(((g >= ma.filled(lo, 0) - 0.01) & (g <= ma.filled(hi, 0) + 0.01))[sel].all(), "smoothed-out-of-range", lambda: f"{key}: profile {i}")
        judge_gaps(obs, ax, tt, limit / 60, opts.mark_data_gaps, key, top=float(h[-1]))
        shade = [(p.vertices[:, 0].min(), p.vertices[:, 0].max()) for c in ax.collections if not getattr(c, "get_hatch", lambda: None)() and type(c).__name__ in ("FillBetweenPolyCollection", "PolyCollection") for p in c.get_paths()]
        for i in range(len(tt)):
            run = flag[i] and ((i > 0 and flag[i - 1]) or (i + 1 < len(tt) and flag[i + 1]))
            obs.n("flagged", int(run))
            hit = any(a_ - 1e-5 <= tt[i] <= b_ + 1e-5 for a_, b_ in shade)
            obs.check(hit == bool(run), "flagged-profile", lambda: f"{key}: profile at {tt[i]:.3f} h flagged {flag[i]} (longer than one profile {run}), shaded {hit}")
    return "smooth"


def do_drops(obs, rng, path, png, spec):
    nc, t, limit = start(rng, path, "disdrometer")
    nd = int(rng.integers(10, 33))
    nc.createDimension("diameter", nd)
    add(nc, "diameter", np.linspace(0.1e-3, float(rng.choice([5e-3, 8e-3, 24e-3])), nd), ("diameter",), "Diameter", "m")
    a = 10 ** rng.uniform(-3, 4, (len(t), nd))
    a[rng.random(a.shape) < 0.3] = 0
    name = str(rng.choice(["number_concentration", "fall_velocity"]))
    if name == "fall_velocity":
        a = np.where(a > 0, rng.uniform(0.1, 12, a.shape), 0)
    add(nc, name, ma.array(a), ("time", "diameter"), f"Name of {name}", "m-3 mm-1")
    nc.close()
    opts = options(rng, max_y=12)
    dims, fig = finish(obs, nc, path, png, opts, [name], spec, name)
    if fig is None:
        return name
    with netCDF4.Dataset(path) as nc:
        axes = main_axes(fig)
        ax = axes[0]
        obs.check(ax.get_ylabel() == "Diameter (mm)" and tuple(ax.get_ylim()) == (0, 10), "y-label", lambda: f"{name}: {ax.get_ylabel()} {ax.get_ylim()}")
        o = dataclasses.replace(opts, mark_data_gaps=opts.mark_data_gaps)
        boxes = hatches(ax)
        ax.set_ylim(0, 12)
        judge_field(obs, nc, ax, name, meta_of(name, "disdrometer"), o, limit, name)
        obs.n("figures")
        del boxes
    return name


def do_error(obs, rng, path, png, spec):
    """requests that cannot be drawn fail without leaving anything behind"""
    from cloudnetpy.exceptions import PlottingError
    nc, t, limit = start(rng, path, "radar")
    add_grid(rng, nc, 50.0, heights(rng, 50.0))
    shape = nc.dimensions["time"].size, nc.dimensions["height"].size
    add(nc, "Z", ma.masked_all(shape), ("time", "height"), "Z", "dBZ")
    add(nc, "v", field(rng, "v", shape), ("time", "height"), "v", "m s-1")
    add(nc, "lwp", ma.masked_all(shape[0]), ("time",), "lwp", "kg m-2")
    nc.close()
    kind = spec["seed"] % 5
    names, empty = [(["nothing", "neither"], False), (["Z"], True), (["lwp"], True), (["v", "Z"], True), (["Z"], False)][kind]
    if kind == 3:
        with netCDF4.Dataset(path) as f:
            pass
    opts = options(rng, raise_on_empty=empty)
    key = f"{names} raise_on_empty {empty}"
    res, fig = draw(obs, path, names, opts, png, key)
    obs.n("errors")
    if kind == 4:
        obs.check(not isinstance(res, Exception), "empty-field", lambda: f"{key}: {res!r}")
    else:
        obs.check(isinstance(res, PlottingError), "no-error", lambda: f"{key}: {res!r}")
        obs.check(not os.path.exists(png), "image-left", key)
    return names
