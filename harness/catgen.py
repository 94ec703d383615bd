"""Synthetic categorize files (written directly with netCDF4) and helpers to read products."""
import numpy as np
from numpy import ma

from . import gen

CAT = ("droplet", "falling", "freezing", "melting", "aerosol", "insect")
QUA = ("radar", "lidar", "clutter", "molecular", "att_liquid", "cor_liquid", "att_rain", "cor_rain",
       "att_melting", "cor_melting")


def unpack(bits, names):
    b = np.array(ma.filled(bits, 0)).astype(int)
    return {k: ((b >> i) & 1) > 0 for i, k in enumerate(names)}


def pack(d, names):
    out = None
    for i, k in enumerate(names):
        x = d[k].astype(int) << i
        out = x if out is None else out | x
    return out


def blobs(rng, nt, nh, n, ht=(2, 14), hh=(2, 12)):
    m = np.zeros((nt, nh), bool)
    for _ in range(n):
        t0, h0 = rng.integers(0, nt), rng.integers(0, nh)
        m[t0:t0 + rng.integers(*ht), h0:h0 + rng.integers(*hh)] = True
    return m


def make(rng, mode="layered", **o):
    nt, nh = o.get("nt", int(rng.integers(20, 60))), o.get("nh", int(rng.integers(20, 60)))
    alt = o.get("alt", float(rng.choice([0.0, 12.0, 305.0, 1890.0, -3.0])))
    if o.get("grid", rng.choice(["even", "uneven"])) == "even":
        dz = float(rng.choice([30.0, 62.5, 110.0]))
        rg = float(rng.choice([dz, 156.0])) + dz * np.arange(nh)
    else:
        rg = float(rng.choice([40.0, 120.0])) + np.cumsum(rng.uniform(20, 130, nh))
    height = (rg + alt).astype("f4").astype("f8")
    time = np.sort(rng.choice(np.arange(2880), nt, replace=False)) / 120 + 1 / 240 if o.get("gappy", rng.random() < 0.3) \
        else (int(rng.integers(0, 2880 - nt)) + np.arange(nt)) / 120 + 1 / 240
    time = time.astype("f4").astype("f8")
    sh = (nt, nh)
    freq = o.get("freq", float(rng.choice([35.5, 94.0])))
    C, Q = {}, {}
    if mode == "sweep":  # exhaustive product of category and quality bits, 16384 per file
        nt, nh = 128, 128
        part = o["part"]
        rg = 200.0 + 90.0 * np.arange(nh)
        height = (rg + alt).astype("f4").astype("f8")
        time = ((np.arange(nt) + 0.5) / 120).astype("f4").astype("f8")
        sh = (nt, nh)
        k = rng.permutation(16384).reshape(sh) + 16384 * part
        cat, qua = k % 64, k // 64
        C, Q = unpack(cat, CAT), unpack(qua, QUA)
    elif mode == "random":
        for k in CAT:
            C[k] = rng.random(sh) < rng.uniform(0.1, 0.7)
        for k in QUA:
            Q[k] = rng.random(sh) < rng.uniform(0.1, 0.7)
        if o.get("no_molecular", False):
            Q["molecular"][:] = False
    else:
        layered(rng, sh, rg, C, Q, o)
    F = {"time": time, "height": height, "nt": nt, "nh": nh}
    rainy = o.get("rainy")
    if rainy is None:
        rainy = np.zeros(nt, bool)
        for _ in range(int(rng.integers(0, 3))):
            s = int(rng.integers(0, nt))
            rainy[s:s + int(rng.integers(1, nt // 2 + 2))] = True
    if "rainmask" in o:
        rainy = o["rainmask"](nt)
    if mode == "layered":
        R = np.tile(rainy[:, None], (1, sh[1]))
        up = np.maximum.accumulate(C["droplet"], axis=1)
        corr = rng.random(nt)[:, None] < 0.6
        Q["att_liquid"] = up & ~R
        Q["cor_liquid"] = Q["att_liquid"] & corr
        Q["att_rain"] = R.copy()
        Q["cor_rain"] = R & (rng.random(nt)[:, None] < 0.5)
        Q["att_melting"] = R & C["freezing"]
        Q["cor_melting"] = Q["att_melting"] & (rng.random(nt)[:, None] < 0.5)
        Q["clutter"] &= ~R
    F["rain_detected"] = rainy.astype(int)
    if o.get("rain_missing", rng.random() < 0.2):
        F["rain_detected"] = ma.array(F["rain_detected"], mask=rng.random(nt) < 0.1)
    z = rng.uniform(-55, 20, sh) if mode != "layered" else np.clip(rng.normal(-22, 12, nt)[:, None] + rng.normal(0, 4, sh), -60, 30)
    F["Z"] = ma.array(z, mask=~Q["radar"])
    uncorr = (Q["att_liquid"] & ~Q["cor_liquid"]) | (Q["att_rain"] & ~Q["cor_rain"]) | (Q["att_melting"] & ~Q["cor_melting"])
    F["Z_error"] = ma.array(rng.uniform(0.05, 3, sh), mask=~Q["radar"] | uncorr)
    F["Z_bias"] = float(rng.uniform(0.3, 2))
    F["Z_sensitivity"] = rng.uniform(-60, -20, nh)
    v = rng.normal(-0.5, 1.2, sh)
    F["v"] = ma.array(v, mask=~Q["radar"])
    F["v_sigma"] = ma.array(np.abs(rng.normal(0, 0.2, sh)), mask=~Q["radar"])
    if o.get("width", rng.random() < 0.8):
        F["width"] = ma.array(np.abs(rng.normal(0.25, 0.15, sh)), mask=~Q["radar"])
    F["beta"] = ma.array(10 ** rng.uniform(-7, -3.5, sh), mask=~Q["lidar"])
    F["beta_error"] = float(rng.uniform(0.2, 1.5))
    F["beta_bias"] = float(rng.uniform(0.5, 4))
    if o.get("lwp", rng.random() < 0.85):
        lwp = rng.gamma(1.0, 0.12, nt)
        if rng.random() < 0.5:
            lwp[rng.random(nt) < 0.1] *= -0.1
            lwp[rng.random(nt) < 0.1] = 0
            lwp[rng.random(nt) < 0.05] = 1.4
        F["lwp"] = ma.array(lwp, mask=rng.random(nt) < rng.choice([0, 0.15]))
        F["lwp_error"] = ma.array(np.hypot(0.25 * lwp, 0.02), mask=ma.getmaskarray(F["lwp"]))
    if o.get("rate", rng.random() < 0.7):
        rr = np.where(rainy, rng.gamma(1.0, 2.5, nt), np.where(rng.random(nt) < 0.1, rng.uniform(0, 5, nt), 0)) / 3.6e6
        F["rainfall_rate"] = ma.array(rr, mask=rng.random(nt) < rng.choice([0, 0.2]))
    cum = np.linspace(0, 1, nh)[None, :]
    for k, amp in (("gas", 2), ("liquid", 14), ("rain", 16), ("melting", 12)):
        a = cum * rng.uniform(0, amp, nt)[:, None] * np.where(rng.random(nt)[:, None] < 0.7, 1, 0)
        if k == "gas":
            F["radar_gas_atten"] = a
        else:
            F[f"radar_{k}_atten"] = ma.array(a, mask=~(Q[f"att_{k}"] & Q[f"cor_{k}"]) if mode == "layered" else rng.random(sh) < 0.4)
    drop = o.get("drop_atten", int(rng.integers(0, 12)))
    if drop in (0, 1, 2):
        F.pop(("radar_liquid_atten", "radar_rain_atten", "radar_melting_atten")[drop])
    elif drop == 3:
        for k in ("liquid", "rain", "melting"):
            F.pop(f"radar_{k}_atten")
    F["category_bits"], F["quality_bits"] = pack(C, CAT), pack(Q, QUA)
    F["radar_frequency"], F["lidar_wavelength"] = freq, float(rng.choice([905.0, 1064.0]))
    moving = o.get("moving", rng.random() < 0.2)
    if moving:
        F["altitude"] = alt + rng.uniform(-2, 2, nt)
        F["latitude"], F["longitude"] = 50 + np.cumsum(rng.normal(0, 0.01, nt)), -20 + np.cumsum(rng.normal(0, 0.01, nt))
    else:
        F["altitude"], F["latitude"], F["longitude"] = alt, float(rng.uniform(-80, 80)), float(rng.uniform(-180, 180))
    mt = np.arange(0, 25, float(rng.choice([1, 3])))
    mh = alt + np.cumsum(rng.uniform(60, 500, 30)) - 50
    if mh[-1] < height[-1] + 100:
        mh = np.append(mh, height[-1] + 500)
    lapse = rng.uniform(0.004, 0.009)
    ts = o.get("tsurf", float(rng.uniform(262, 300)))
    T = ts + rng.normal(0, 1, len(mt))[:, None] - lapse * (mh - alt)[None, :] + rng.normal(0, 0.3, (len(mt), len(mh)))
    F["model_time"], F["model_height"] = mt, mh
    F["temperature"] = np.maximum(T, 195)
    F["pressure"] = 101325 * np.exp(-mh / 8000)[None, :] * (1 + 0.001 * rng.normal(size=(len(mt), 1)))
    F["q"] = np.full(T.shape, 0.003)
    F["uwind"] = rng.normal(3, 6, T.shape)
    F["vwind"] = rng.normal(-2, 6, T.shape)
    F["attrs"] = {"source": "Radar A\nLidar B\nMWR C"[:int(rng.choice([7, 15, 21]))], "uuid": gen.rand_uuid(rng)}
    F["history"] = "2023-06-15 02:00:00 +00:00 - categorize file created\n2023-06-15 01:00:00 +00:00 - radar file created"
    F["C"], F["Q"] = C, Q
    return F


def layered(rng, sh, rg, C, Q, o):
    nt, nh = sh
    for k in CAT:
        C[k] = np.zeros(sh, bool)
    for k in QUA:
        Q[k] = np.zeros(sh, bool)
    fz = int(rng.integers(0, nh + 1))
    top = np.clip(fz + np.cumsum(rng.integers(-1, 2, nt)), 0, nh)
    if rng.random() < 0.15:
        top[:] = nh
    ih = np.arange(nh)[None, :]
    C["freezing"] = ih >= top[:, None]
    fall = blobs(rng, nt, nh, int(rng.integers(2, 7)), (4, nt), (3, max(4, nh // 2)))
    drop = blobs(rng, nt, nh, int(rng.integers(2, 9)), (2, nt), (1, 7))
    drop[:, 0] &= rng.random() < 0.5
    edge = rng.random()
    if edge < 0.15:
        drop[:max(2, nt // 3), -1] = True
    elif edge < 0.3:
        drop[:max(2, nt // 3), -3:-1] = True
    for t in range(nt):
        if top[t] < nh and top[t] > 0 and rng.random() < 0.3:
            C["melting"][t, max(0, top[t] - 2):top[t]] = True
    C["droplet"] = drop
    C["falling"] = fall
    C["melting"] &= fall
    C["aerosol"] = blobs(rng, nt, nh, 2) & ~fall & ~drop & (ih < nh // 2)
    C["insect"] = blobs(rng, nt, nh, 2) & ~fall & ~drop & (ih < nh // 2) & ~C["freezing"]
    Q["radar"] = (fall & (rng.random(sh) < 0.95)) | C["insect"]
    dr = blobs(rng, nt, nh, 4, (4, nt), (6, nh))  # where radar sees the droplets
    Q["radar"] |= drop & dr & (rng.random(sh) < 0.95)
    Q["lidar"] = C["aerosol"] | drop | (fall & (rng.random(sh) < 0.6) & blobs(rng, nt, nh, 5, (4, nt), (6, nh)))
    # droplets extended above the lidar signal, but never a layer without lidar
    for t in range(nt):
        for a, b in runs(drop[t]):
            if b - a > 2 and rng.random() < 0.3:
                Q["lidar"][t, a + 1:b] &= rng.random(b - a - 1) < 0.5
    Q["clutter"] = Q["radar"] & ~fall & ~drop & (ih < 8) & (rng.random(sh) < 0.5)
    Q["radar"] &= ~(fall & ~Q["lidar"] & False)


def runs(row):
    d = np.diff(np.concatenate([[0], row.astype(int), [0]]))
    return list(zip(np.where(d == 1)[0], np.where(d == -1)[0]))


DIMS = {2: ("time", "height")}


def write(path, F, omit=()):
    with gen._nc(path) as nc:
        gen._globals(nc, "categorize", F["attrs"]["source"], F["attrs"]["uuid"], extra={"history": F["history"]})
        nc.source_file_uuids = "aaa, bbb"
        for d, k in (("time", "time"), ("height", "height"), ("model_time", "model_time"), ("model_height", "model_height")):
            nc.createDimension(d, len(F[k]))
        units = {"height": "m", "altitude": "m", "model_height": "m", "time": f"hours since {'-'.join(gen.DATE)} 00:00:00 +00:00",
                 "model_time": f"hours since {'-'.join(gen.DATE)} 00:00:00 +00:00", "Z": "dBZ", "beta": "sr-1 m-1", "lwp": "kg m-2",
                 "rainfall_rate": "m s-1", "temperature": "K", "pressure": "Pa", "latitude": "degree_north", "longitude": "degree_east",
                 "lwp_error": "kg m-2", "Z_error": "dB"}
        for k, v in F.items():
            if k in ("nt", "nh", "attrs", "history", "C", "Q") or k in omit:
                continue
            v = ma.asanyarray(v)
            if v.ndim == 0:
                dims = ()
            elif k in ("temperature", "pressure", "q", "uwind", "vwind"):
                dims = ("model_time", "model_height")
            elif v.ndim == 2:
                dims = ("time", "height")
            elif k in ("height", "Z_sensitivity"):
                dims = ("height",)
            elif k in ("model_time", "model_height"):
                dims = (k,)
            else:
                dims = ("time",)
            dt = "i4" if k in ("category_bits", "quality_bits", "rain_detected") else "f4"
            gen.put(nc, k, v, dims, units.get(k, "1"), dt, long_name=k)
    return path


def interp_model(f, name):
    """Bilinear model value at every (time, height), clamped to the model grid."""
    t, h = np.array(f["time"], float), np.array(f["height"], float)
    mt, mh, z = np.array(f["model_time"], float), np.array(f["model_height"], float), np.array(f[name], float)

    def w(x, g):
        x = np.clip(x, g[0], g[-1])
        i = np.clip(np.searchsorted(g, x, side="right") - 1, 0, len(g) - 2)
        return i, (x - g[i]) / (g[i + 1] - g[i])
    i, a = w(t, mt)
    j, b = w(h, mh)
    a, b = a[:, None], b[None, :]
    g = lambda p, q: z[p][:, q]  # noqa: E731
    return (g(i, j) * (1 - a) * (1 - b) + g(i + 1, j) * a * (1 - b) + g(i, j + 1) * (1 - a) * b + g(i + 1, j + 1) * a * b)


def is_rain(f):
    for k in ("rain_detected", "rainfall_rate", "rain_rate"):
        if k in f:
            return np.where(ma.getmaskarray(f[k]), True, np.array(ma.filled(f[k], 1)) != 0)
    raise KeyError


def real_categorize(rng, tmp, **o):
    """A categorize file produced by the real code from a random scene."""
    from cloudnetpy.categorize import generate_categorize
    S = gen.scene(rng, **o)
    files = gen.write_scene(S, tmp)
    out = f"{tmp}/cat.nc"
    generate_categorize(files, out)
    return out


def cat_file(rng, spec, tmp, **o):
    """Categorize file for a case: spec['m'] is the mode."""
    if spec["m"] == "real":
        return real_categorize(rng, tmp, **{k: v for k, v in o.items() if k in ("mwr", "tsurf", "p_rain", "radar", "moving")})
    return write(f"{tmp}/cat.nc", make(rng, spec["m"], **o))
