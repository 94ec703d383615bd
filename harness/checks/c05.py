"""C05: category bits against their invariants and against a reference classification."""
import calendar
import contextlib
import os
import sys
import types

import numpy as np
from numpy import ma
from scipy import ndimage

from .. import capture, gen, refclass
from ..runner import Obs

ID, LEVEL = "C05", "exploration"
RULE = ("random scenes (all radar types; warm to arctic; insects, clutter, rain, snow, bright bands, several droplet layers, "
        "supercooled and super-cold liquid, high-LDR ice, speckle; with and without LWP and disdrometer, gaps) through the categorize step; "
        "invariants of the bits in the file plus a pixel-by-pixel comparison with an independent reference classification of the "
        "gridded observations captured at the classification entry; non-trivial if at least four of the six bits occur; distinct by scene")
ASSUMPTIONS = ["the neural network of the VoodooNet path (RPG level 0 files) is not installed; a stand-in module returns drawn probabilities"]
BITS = ("droplet", "falling", "freezing", "melting", "aerosol", "insect")
MIN = {"pixels": 100000, "droplet": 2000, "falling": 30000, "freezing": 50000, "melting": 800, "aerosol": 10000,
       "insect": 1500, "rain": 150, "ref_pixels": 100000, "supercold_liquid_prevented": 20, "rain_from_radar": 10, "rain_unknown_rate": 3, "voodoo": 10, "voodoo_refused": 1, "radar_liquid": 500}


def cases(tier, seed):
    n = 288 if tier == "quick" else 1200
    out = [{"seed": seed * 100000 + i, "v": i % 16} for i in range(n)]
    m = 16 if tier == "quick" else 200
    return out + [{"seed": seed * 100000 + 50000 + i, "v": 3 * i % 16, "voodoo": True} for i in range(m)]


def tune(S, v, rng):
    """Adds phenomena that the plain scene does not contain."""
    R, L = S["radar"], S["lidar"]
    n, g = R["Zh"].shape

    def put(m, z, vel, w, ldr):
        for k, a, s in (("Zh", z, 2), ("v", vel, 0.2), ("width", w, 0.05), ("ldr", ldr, 1.5), ("sldr", ldr, 1.5)):
            if k in R:
                x, mk = R[k].data.copy(), ma.getmaskarray(R[k]).copy()
                x[m] = rng.normal(a, s, int(m.sum()))
                mk[m] = False
                R[k] = ma.array(x, mask=mk)
    H = S["rng"][None, :]
    if v in (3, 11):  # high-LDR echoes in a cold column
        lo = rng.uniform(300, 3000)
        m = (H > lo) & (H < lo + 700) & (rng.random((n, g)) < 0.8)
        put(m, -24, -0.5, 0.2, -8)
    if v in (5, 13):  # dense insects next to rain, up to the freezing level
        m = (H < 2600) & (rng.random((n, g)) < 0.5) & ~S["rainy"][:, None]
        put(m, -25, -0.4, 0.15, -6)
    if v in (1, 6):  # a bright band that comes and goes, with a strong velocity gradient
        zt = (S["tsurf"] - 273.16) / 6.5e-3
        w = np.sin(np.linspace(0, 20, n) + rng.random() * 6) > 0.2
        put(w[:, None] & (H < zt - 200), 15, -5, 1.0, -27)
        put(w[:, None] & (np.abs(H - (zt - 100)) < 130), 18, -3, 0.7, -14)
        put(w[:, None] & (H > zt + 30) & (H < zt + 2500), 5, -1.0, 0.2, -26)
    if v in (2, 9):  # a second droplet layer higher up
        r = L["range"]
        t = rng.uniform(2500, 6000) if L["range"][-1] > 5000 else rng.uniform(1500, 3000)
        p = np.abs(r - t) < 70
        b = np.array(L["beta"].filled(0))
        b[:, p] = 5e-5 * np.exp(-((r[p] - t) / 40.0) ** 2)
        L["beta"] = ma.array(b.astype("f4"), mask=ma.getmaskarray(L["beta"]) & ~p[None, :])
    if v == 8 and "synop_WaWa" in S.get("disdrometer", {}):
        D = S["disdrometer"]
        D["synop_WaWa"] = rng.choice([0, 57, 61, 68, 71, 56, 69], len(D["time"])).astype("i4")
    if v == 12 and "disdrometer" in S:
        D = S["disdrometer"]
        a = len(D["time"]) // 3
        D["rainfall_rate"][a:2 * a] = ma.masked
        D["n_particles"] = ma.array(D["n_particles"])
        D["n_particles"][:a] = rng.integers(25, 36, a)
        D["rainfall_rate"][:a] = rng.uniform(0.15, 0.35, a) / 3.6e6
    if v == 14:
        S["model"]["type"] = "gdas1"
    if v == 13 and "mwr" in S:  # extreme liquid water path: insect probability from all but LDR vanishes
        x = S["mwr"]["lwp"]
        a = len(x) // 4
        x[a:3 * a] = rng.uniform(2.5, 4, 2 * a)


OPTS = {0: {}, 1: {"tsurf": 284.0, "p_rain": 0.9}, 2: {}, 3: {"tsurf": 266.0, "p_rain": 0}, 4: {"tsurf": 243.0, "liq_b": 2600.0, "lmax": 7600.0},
        5: {"tsurf": 287.0, "p_rain": 1.0, "clutter": True}, 6: {"tsurf": 281.0, "fold": False}, 7: {"dur": 5.5, "step": 30.0, "ng": 45, "lstep": 30.0},
        8: {"disdro": True, "p_rain": 1.0, "tsurf": 279.0}, 9: {"mwr": False}, 10: {"tsurf": 240.0, "liq_b": 3200.0, "lmax": 7600.0, "alt": 1875.0},
        11: {"tsurf": 270.0, "radar": "mira"}, 12: {"disdro": True, "p_rain": 1.0, "tsurf": 290.0, "dgaps": 3}, 13: {"tsurf": 287.0, "p_rain": 0.5, "fold": False, "radar": "mira", "mwr": True},
        14: {"tsurf": 284.0, "p_rain": 1.0}, 15: {"disdro": False, "p_rain": 1.0, "tsurf": 291.0, "clutter": True}}


def run_case(spec, tmp):
    from cloudnetpy.categorize import generate_categorize
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    v = spec["v"]
    o = dict(OPTS[v])
    if v == 7 and (spec["seed"] // 16) % 3:  # long records are slow: every third only
        o = {}
    if "voodoo" in spec:
        if v == 11:
            v = 3
        o.update(OPTS[v], radar="rpg" if spec["seed"] % 8 else "mira")
        o.pop("dur", None)
    S = gen.scene(rng, **o)
    tune(S, v, rng)
    files = gen.write_scene(S, tmp)
    out = f"{tmp}/cat.nc"
    voodoo = Voodoo(rng) if "voodoo" in spec else None
    if voodoo:
        voodoo.gates = len(S["radar"]["range"])
        files["lv0_files"] = voodoo.files = [f"{tmp}/{k}.LV0" for k in range(int(rng.integers(1, 4)))]
    with capture.classification_inputs() as seen, voodoo or contextlib.nullcontext():
        try:
            generate_categorize(files, out)
        except NotImplementedError:
            obs.n("voodoo_refused")
            obs.check(voodoo is not None and S["kind"] != "rpg" and not os.path.exists(out), "refused-wrongly", S["radar"]["source"])
            obs.sig = f"refused-{spec['seed']}"
            return obs
    f, at = gen.read(out)
    if voodoo:
        obs.check(S["kind"] == "rpg", "voodoo-other-radar", S["radar"]["source"])
        voodoo.judge(obs, f, at, S, out, tmp)
        if len(seen) == 1 and isinstance(seen[0], dict):
            seen[0]["liquid_prob"] = voodoo.prob
    else:
        obs.check(at.get("cloudnet_file_type") == "categorize" and "liquid_prob" not in f, "file-type", str(at.get("cloudnet_file_type")))
    invariants(obs, f, S, voodoo is not None)
    if len(seen) == 1 and isinstance(seen[0], dict):
        seen[0]["model_type"], seen[0]["radar_type"] = S["model"]["type"], S["radar"]["source"]
        reference(obs, f, seen[0])
    obs.sig = f"{v}-{S['kind']}-{len(f['time'])}-{len(f['height'])}-{obs.counts.get('insect')}"
    obs.nontrivial = sum(obs.counts.get(b, 0) > 0 for b in BITS) >= 4
    obs.sample = {"seed": spec["seed"], "variant": v, **{b: obs.counts.get(b, 0) for b in BITS}}
    return obs


class Voodoo:
    """stand-in for the neural network: smooth random probabilities on the asked times"""

    def __init__(self, rng):
        self.rng, self.calls, self.prob = rng, [], None

    def infer(self, files, target_time=None, options=None, **kw):
        self.calls.append((list(files), np.array(target_time)))
        n = len(target_time)
        x = ndimage.gaussian_filter(self.rng.normal(size=(n, self.gates)), (2, 2))
        x = x / max(x.std(), 1e-9)
        self.prob = 1 / (1 + np.exp(-2 * x + 1))
        return self.prob.copy()

    def __enter__(self):
        m, u, ver = types.ModuleType("voodoonet"), types.ModuleType("voodoonet.utils"), types.ModuleType("voodoonet.version")
        m.VoodooOptions = lambda **k: k
        m.infer = self.infer
        u.decimal_hour2unix = lambda d, t: np.array(t, float) * 3600 + calendar.timegm((int(d[0]), int(d[1]), int(d[2]), 0, 0, 0))
        ver.__version__ = "9.8.7"
        m.utils, m.version = u, ver
        sys.modules.update({"voodoonet": m, "voodoonet.utils": u, "voodoonet.version": ver})
        import cloudnetpy.categorize.categorize  # noqa: F401
        return self

    def __exit__(self, *a):
        for k in ("voodoonet", "voodoonet.utils", "voodoonet.version"):
            sys.modules.pop(k, None)

    def judge(self, obs, f, at, S, out, tmp):
        from cloudnetpy.products import generate_classification
        if not obs.check(len(self.calls) == 1, "network-calls", str(len(self.calls))):
            return
        files, t = self.calls[0]
        obs.n("voodoo")
        obs.check(files == self.files, "network-files", lambda: f"{files} for {self.files}")
        day = calendar.timegm((*(int(x) for x in S["date"]), 0, 0, 0))
        obs.check(t.shape == f["time"].shape and np.abs(t - day - 3600 * np.array(f["time"], float)).max() < 0.05, "network-times", lambda: f"{t[:3]}")
        p = f.get("liquid_prob")
        obs.check(p is not None and p.shape == self.prob.shape and np.allclose(np.ma.filled(p, -1), self.prob, atol=1e-5), "liquid_prob", "stored probabilities differ")
        obs.check(at.get("cloudnet_file_type") == "categorize-voodoo" and at.get("voodoonet_version") == "9.8.7" and "amt-15-5343-2022" in at.get("references", ""), "voodoo-attributes", lambda: str(at))
        generate_classification(out, f"{tmp}/class.nc")
        c = gen.read(f"{tmp}/class.nc")[1]
        obs.check(c.get("cloudnet_file_type") == "classification-voodoo" and c.get("voodoonet_version") == "9.8.7", "voodoo-classification", lambda: str(c))


def decode(f):
    c = f["category_bits"]
    c = np.array(ma.filled(c, 0)).astype(int)
    return {k: ((c >> i) & 1) > 0 for i, k in enumerate(BITS)}, c


def runs2d(b):
    """labels of vertical runs (0 = none)"""
    start = b & ~np.pad(b, ((0, 0), (1, 0)))[:, :-1]
    lab = np.cumsum(start.ravel()).reshape(b.shape)
    return np.where(b, lab, 0)


def invariants(obs, f, S, radar_liquid):
    B, c = decode(f)
    for k in BITS:
        obs.n(k, B[k].sum())
    obs.n("pixels", c.size)
    z, be = ~ma.getmaskarray(f["Z"]), ~ma.getmaskarray(f["beta"])
    tw = np.array(ma.filled(f["Tw"], np.nan), dtype="f8") if "Tw" in f else None
    up = refclass.up

    def never(key, m):
        obs.n("pixel_rules", m.size)
        obs.check(not m.any(), key, lambda: f"{int(m.sum())} pixels, first (time, gate) {np.argwhere(m)[0].tolist()}")
    obs.check(not ma.getmaskarray(f["category_bits"]).any(), "bits-missing")
    never("undefined-bits", (c >> 6) != 0)
    never("aerosol-without-lidar", B["aerosol"] & ~be)
    never("aerosol-and-droplet", B["aerosol"] & B["droplet"])
    never("aerosol-and-falling", B["aerosol"] & B["falling"])
    never("insect-and-falling", B["insect"] & B["falling"])
    never("insect-and-droplet", B["insect"] & B["droplet"])
    never("insect-without-signal", B["insect"] & ~z & ~be)
    never("freezing-gap", B["freezing"] != up(B["freezing"]))
    am = up(B["melting"])
    never("insect-above-melting", B["insect"] & am & z & ~B["aerosol"] & B["freezing"])
    if tw is not None:
        never("supercold-droplet", B["droplet"] & (tw < 273.16 - 38 - 1e-3))
        obs.n("supercold_liquid_prevented", int((B["falling"] & be & (tw < 273.16 - 38)).sum()))
        never("falling-without-signal", B["falling"] & ~z & ~be & (tw >= 273.16 - 38 + 1e-3))
    lab = runs2d(B["droplet"])
    k = int(lab.max())
    if k and not radar_liquid:
        has = np.zeros(k + 1, bool)
        has[np.unique(lab[be & (lab > 0)])] = True
        has[0] = True
        if tw is not None:  # a layer cut by the -38 C limit may have lost its lidar part
            has[np.unique(lab[(lab > 0) & (tw < 273.16 - 30)])] = True
        never("droplet-layer-without-lidar", ~has[lab])


def reference(obs, f, o):
    ref = refclass.classify(o)
    B, c = decode(f)
    got = dict(B)
    rd = f["rain_detected"]
    got["rain"] = np.array(ma.filled(rd, 9)).astype(int)
    got["clutter"] = ((np.array(f["quality_bits"]).astype(int) >> 2) & 1) > 0
    near = ref["near_freezing"]
    if near.any():  # a gate within rounding of the freezing level: nothing exact can be said
        obs.n("skipped_ties")
        return
    obs.n("ref_pixels", c.size)
    obs.n("rain", ref["rain"].sum())
    unknown = np.ones(len(o["time"]), bool) if o["rr"] is None else (ma.getmaskarray(o["rr"]) | ma.getmaskarray(o["np"]))
    obs.n("rain_from_radar", int((ref["rain"] & unknown).sum()))
    if o["rr"] is not None:
        obs.n("rain_unknown_rate", int(unknown.sum()))
    if o.get("liquid_prob") is not None:
        obs.n("radar_liquid", int((ref["droplet"] & (o["liquid_prob"] > 0.55) & ma.getmaskarray(o["beta"])).sum()))
    for k in ("rain", "clutter") + BITS:
        d = got[k] != ref[k]
        obs.check(not d.any(), f"reference-{k}", lambda: f"{int(d.sum())} of {d.size}, first {np.argwhere(d)[0].tolist()} "
                  f"file={got[k][tuple(np.argwhere(d)[0])]}")
    p = f["insect_prob"]
    d = np.abs(np.array(p.filled(0), dtype="f8") - ref["insect_prob"]) > 1e-4
    obs.check(not d.any(), "reference-insect_prob", lambda: f"{int(d.sum())} pixels first {np.argwhere(d)[0].tolist()}")
