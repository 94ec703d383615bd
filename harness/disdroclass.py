"""Size and speed classes of the disdrometers as their manuals tabulate them."""
import numpy as np

RD80_LOW = np.array([.313, .405, .505, .596, .715, .827, .999, 1.232, 1.429, 1.582, 1.748, 2.077, 2.441, 2.727, 3.011, 3.385, 3.704, 4.127, 4.573, 5.145])
RD80_MID = np.array([.359, .455, .551, .656, .771, .913, 1.116, 1.331, 1.506, 1.665, 1.912, 2.259, 2.584, 2.869, 3.198, 3.544, 3.916, 4.350, 4.859, 5.373])
RD80_WIDTH = np.array([.092, .100, .091, .119, .112, .172, .233, .197, .153, .166, .329, .364, .286, .284, .374, .319, .423, .446, .572, .455])
RD80_SPEED = np.array([1.435, 1.862, 2.267, 2.692, 3.154, 3.717, 4.382, 4.986, 5.423, 5.793, 6.315, 7.009, 7.546, 7.903, 8.258, 8.556, 8.784, 8.965, 9.076, 9.137])
RD80_AREA = 0.005  # 50 cm2

# edges of the classes, mm and m/s
OTT_D = [0, .125, .25, .375, .5, .625, .75, .875, 1, 1.125, 1.25, 1.5, 1.75, 2, 2.25, 2.5, 3, 3.5, 4, 4.5, 5, 6, 7, 8, 9, 10, 12, 14, 16, 18, 20, 23, 26]
OTT_V = [0, .1, .2, .3, .4, .5, .6, .7, .8, .9, 1, 1.2, 1.4, 1.6, 1.8, 2, 2.4, 2.8, 3.2, 3.6, 4, 4.8, 5.6, 6.4, 7.2, 8, 9.6, 11.2, 12.8, 14.4, 16, 19.2, 22.4]
LNM_D = [.125, .25, .375, .5, .75, 1, 1.25, 1.5, 1.75, 2, 2.5, 3, 3.5, 4, 4.5, 5, 5.5, 6, 6.5, 7, 7.5, 8, 8.5]
LNM_V = [0, .2, .4, .6, .8, 1, 1.4, 1.8, 2.2, 2.6, 3, 3.4, 4.2, 5, 5.8, 6.6, 7.4, 8.2, 9, 10, 20]


def axes(fmt):
    """{axis: (middle, lower, upper, width)} in the units of the files, or {}"""
    if fmt.startswith("parsivel"):
        e = {"diameter": np.array(OTT_D) / 1e3, "velocity": np.array(OTT_V)}
    elif fmt.startswith("thies"):
        e = {"diameter": np.array(LNM_D) / 1e3, "velocity": np.array(LNM_V)}
    elif fmt == "rd80":
        return {"diameter": (RD80_MID / 1e3, RD80_LOW / 1e3, np.append(RD80_LOW[1:], RD80_LOW[-1] + RD80_WIDTH[-1]) / 1e3, RD80_WIDTH / 1e3)}
    else:
        return {}
    return {k: ((x[1:] + x[:-1]) / 2, x[:-1], x[1:], np.diff(x)) for k, x in e.items()}


def check(obs, fmt, nc):
    for name, (mid, low, up, width) in axes(fmt).items():
        v = nc["vars"]
        want = {name: mid, name + "_spread": width, name + "_bnds": np.stack((low, up), axis=1)}
        if not any(k in v for k in want):
            continue
        for k, w in want.items():
            obs.n("classes")
            g = v.get(k)
            g = None if g is None else np.ma.filled(np.ma.asarray(g, float), np.nan)
            ok = g is not None and g.shape == w.shape and np.allclose(g, w, rtol=1e-5, atol=1e-9)
            obs.check(ok, "classes:" + k, lambda: f"{fmt}: {k} is {g}, the instrument's classes are {w}")
