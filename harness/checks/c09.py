"""C09: cloud base / top heights and the cloud top status of the classification product."""
import numpy as np
from numpy import ma

from .. import catgen, gen
from ..runner import Obs
from . import c08

ID, LEVEL = "C09", "exploration"
RULE = ("layered, random-bit, cloud-free, single-gate and full-column categorize files with even and uneven height grids, site altitudes below, at and above "
        "sea level (including a gate exactly at 0 m), fixed and moving platforms, plus files from the real categorize step; base, top and top status recomputed by "
        "an independent flood fill; non-trivial if some profiles have and some lack a cloud; distinct by seed")
ASSUMPTIONS = ["above-ground heights of a moving platform refer to its mean altitude, as the file reader defines it"]
MIN = {"profiles": 2000, "cloudy": 800, "cloudless": 300, "removed_objects": 100, "top_at_last_gate": 20, "zero_height_base": 5,
       "status_nonzero": 200, "moving": 5, "objects_at_limit": 5}


def cases(tier, seed):
    n = 220 if tier == "quick" else 1200
    return [{"seed": seed * 100000 + i, "m": ("layered", "layered", "random", "layered", "real")[i % 5], "v": i % 11} for i in range(n)]


def components(m):
    lab = np.zeros(m.shape, int)
    sizes = [0]
    for s in map(tuple, np.argwhere(m)):
        if lab[s]:
            continue
        n = len(sizes)
        lab[s] = n
        stack, size = [s], 0
        while stack:
            i, j = stack.pop()
            size += 1
            for a, b in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
                if 0 <= a < m.shape[0] and 0 <= b < m.shape[1] and m[a, b] and not lab[a, b]:
                    lab[a, b] = n
                    stack.append((a, b))
        sizes.append(size)
    return lab, np.array(sizes)


def run_case(spec, tmp):
    from cloudnetpy.products import generate_classification
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    v = spec["v"]
    o = {}
    if spec["m"] == "real":
        cat = catgen.real_categorize(rng, tmp)
    else:
        F = catgen.make(rng, spec["m"], **o)
        if v == 1 and spec["m"] == "layered":
            k = int(rng.integers(0, F["nh"] // 2))
            F["height"] = F["height"] - F["height"][k]  # a gate exactly at sea level
            F["C"]["droplet"][:, k:k + 3] = True
            F["C"]["droplet"][:, :k] = False
            F["C"]["falling"][:, :k + 1] = False
            F["C"]["aerosol"][:], F["C"]["insect"][:], F["Q"]["clutter"][:] = False, False, False
        if v == 2:  # no cloud at all or nearly so
            for k in ("droplet", "falling"):
                F["C"][k][:] = False
            if rng.random() < 0.5:
                F["C"]["droplet"][3:10, 5:9] = True
        if v in (3, 4):  # objects of 19..22 pixels
            for k in catgen.CAT:
                F["C"][k][:] = False
            F["Q"]["clutter"][:] = False
            t = 0
            while t + 6 < F["nt"]:
                n = int(rng.integers(18, 24))
                h = int(rng.integers(0, F["nh"] - 7))
                idx = np.arange(n)
                F["C"]["droplet"][t + idx // 5, h + idx % 5] = True
                if rng.random() < 0.5 and h > 2:  # diagonal neighbour is not connected
                    F["C"]["droplet"][t, h - 1] = False
                    F["C"]["falling"][t, h - 1] = True
                t += 6 if rng.random() < 0.6 else int(rng.integers(5, 9))
        if v == 5:
            F["C"]["falling"][:, -6:] = True
            F["C"]["freezing"][:, -6:] = True
        F["category_bits"] = catgen.pack(F["C"], catgen.CAT)
        F["quality_bits"] = catgen.pack(F["Q"], catgen.QUA)
        cat = catgen.write(f"{tmp}/cat.nc", F)
    out = f"{tmp}/cls.nc"
    generate_classification(cat, out)
    f, _ = gen.read(cat)
    p, _ = gen.read(out)
    compare(obs, f, p)
    obs.nontrivial = obs.counts.get("cloudy", 0) > 0 and obs.counts.get("cloudless", 0) > 0
    obs.sig = f"{spec['m']}-{v}-{spec['seed']}"
    obs.sample = {"mode": spec["m"], "variant": v, "cloudy": obs.counts.get("cloudy", 0), "profiles": obs.counts.get("profiles", 0)}
    return obs


def compare(obs, f, p):
    _, tc = c08.cls(f)
    h = np.array(f["height"], float)
    m = np.isin(tc, (1, 3, 4, 5))
    lab, sizes = components(m)
    keep = m & (sizes[lab] > 20)
    obs.n("removed_objects", (sizes[1:] <= 20).sum())
    obs.n("objects_at_limit", np.isin(sizes[1:], (20, 21)).sum())
    alt = ma.asanyarray(f["altitude"])
    obs.n("moving", alt.ndim > 0)
    alt = float(np.mean(np.array(alt, "f4"))) if alt.ndim else float(alt)
    att, tie = c08.att_status(f, c08.cls(f)[0])
    nt = len(tc)
    obs.n("profiles", nt)
    get = {k: p[k] for k in ("cloud_base_height_amsl", "cloud_top_height_amsl", "cloud_base_height_agl", "cloud_top_height_agl")}
    st = p["cloud_top_height_status"]
    obs.check(not ma.getmaskarray(st).any(), "status-missing")
    for t in range(nt):
        idx = np.where(keep[t])[0]
        if len(idx) == 0:
            obs.n("cloudless")
            for k, x in get.items():
                obs.check(ma.getmaskarray(x)[t], f"value-without-cloud-{k}", lambda k=k, x=x: f"profile {t}: {k}={x[t]}")
            obs.check(int(ma.filled(st, -9)[t]) == 0, "status-without-cloud", lambda: f"profile {t}: status {st[t]}")
            continue
        obs.n("cloudy")
        b, tp = h[idx[0]], h[idx[-1]]
        obs.n("zero_height_base", b == 0 or tp == 0)
        obs.n("top_at_last_gate", idx[-1] == len(h) - 1)
        exp = {"cloud_base_height_amsl": b, "cloud_top_height_amsl": tp, "cloud_base_height_agl": b - alt, "cloud_top_height_agl": tp - alt}
        for k, e in exp.items():
            g = get[k][t]
            obs.check(g is not ma.masked and abs(float(g) - e) <= 0.01 + 1e-6 * abs(e), k, lambda k=k, e=e, g=g: f"profile {t}: {k}={g} expected {e:.3f}")
        a = att[t, idx[-1]]
        es = {3: 1, 4: 3, 5: 2}.get(int(a), 0)
        if idx[-1] == len(h) - 1:
            es = 4
        if not tie[t, idx[-1]]:
            obs.n("status_nonzero", es != 0)
            obs.check(int(ma.filled(st, -9)[t]) == es, "top-status", lambda: f"profile {t}: status {st[t]} expected {es} (attenuation class {a})")
