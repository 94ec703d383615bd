"""Synthetic level 1b inputs (written directly with netCDF4, not with cloudnetpy)."""
import os
import uuid as _uuid
import zlib

import netCDF4
import numpy as np
from numpy import ma

DATE = ("2023", "06", "14")
T0 = 273.15


def _nc(path, fmt="NETCDF4_CLASSIC"):
    return netCDF4.Dataset(path, "w", format=fmt)


def _globals(nc, kind, source, uid, date=DATE, location="Testville", extra=None):
    nc.year, nc.month, nc.day = date
    nc.location = location
    nc.source = source
    nc.cloudnet_file_type = kind
    nc.file_uuid = str(uid)
    nc.title = f"{kind} file from {location}"
    nc.history = f"2023-06-15 01:00:00 +00:00 - {kind} file created"
    nc.Conventions = "CF-1.8"
    for k, v in (extra or {}).items():
        setattr(nc, k, v)


def filler(path, name, data, dtype):
    """Missing values look like anything in a file, also like ordinary numbers of other pixels."""
    fill = netCDF4.default_fillvals[dtype]
    if dtype[0] != "f" or not np.ma.isMaskedArray(data) or not np.ma.getmaskarray(data).any() or not np.ma.count(data):
        return fill
    x = np.ma.compressed(data).astype(float)
    x = x[np.isfinite(x)]
    h = zlib.crc32(f"{x.size}{name}{x[:3].tolist()}".encode())
    if not x.size or h % 2:
        return fill
    a = [-999.0, 1e20, 0.1234567, -31.4567, 0.0, float(np.median(x)) * 1.0137, float(x.min()) * 1.0137, float(x.max()) * 1.0137, np.nan][h // 2 % 9]
    a = float(np.float32(a)) if dtype == "f4" else a
    return fill if (np.isclose(x, a, rtol=1e-6, atol=1e-30)).any() else a


def put(nc, name, data, dims=(), units=None, dtype="f4", **attrs):
    fill = filler(nc.filepath(), name, data, dtype)
    v = nc.createVariable(name, dtype, dims, fill_value=fill, zlib=False)
    v[:] = data
    if units is not None:
        v.units = units
    for k, a in attrs.items():
        v.setncattr(k, a)
    return v


def rand_uuid(rng):
    return _uuid.UUID(bytes=bytes(rng.integers(0, 256, 16, dtype=np.uint8).tolist()), version=4)


# ------------------------------------------------------------------ scene
def scene(rng, **o):
    """Draws one whole multi-instrument scene. Returns dict of instrument dicts."""
    kind = o.get("radar", rng.choice(["mira", "rpg", "basta", "copernicus"]))
    t0 = o.get("t0", float(rng.choice([0.0, 3.7, 10.25, 22.4])))
    dur = o.get("dur", float(rng.uniform(0.45, 1.0)))
    if t0 + dur > 24:
        t0 = 24 - dur
    alt = o.get("alt", float(rng.choice([2.0, 104.0, 650.0, 1875.0])))
    ng = o.get("ng", int(rng.integers(45, 75)))
    dz = o.get("dz", float(rng.choice([60.0, 97.5, 120.0])))
    r0 = o.get("r0", float(rng.choice([dz, 150.0, 213.0])))
    rng_m = r0 + dz * np.arange(ng)
    if kind == "rpg" and o.get("uneven", True):
        # chirp-like uneven grid
        k = ng // 2
        rng_m = np.concatenate([r0 + 0.6 * dz * np.arange(k),
                                r0 + 0.6 * dz * (k - 1) + dz * (1 + np.arange(ng - k))])
    step = o.get("step", float(rng.choice([3.1, 8.0, 10.0, 17.0, 30.0])))
    jitter = o.get("jitter", rng.random() < 0.5)
    tr = np.arange(t0 * 3600 + rng.uniform(0.2, step), (t0 + dur) * 3600, step)
    if jitter:
        tr = np.sort(tr + rng.uniform(-0.4, 0.4, tr.size) * step)
        tr = np.clip(tr, 0, 86399.9)
    n_gaps = o.get("gaps", int(rng.integers(0, 3)))
    keep = np.ones(tr.size, bool)
    for _ in range(n_gaps):
        a = rng.uniform(tr[0], tr[-1])
        w = rng.choice([25.0, 70.0, 200.0, 400.0])
        keep &= ~((tr > a) & (tr < a + w))
    if keep.sum() > 20:
        tr = tr[keep]
    tr_h = tr / 3600
    S = {"date": DATE, "alt": alt, "kind": kind, "rng": rng_m}
    height = rng_m + alt
    # --- truth in temperature
    tsurf = o.get("tsurf", float(rng.choice([268.0, 279.0, 285.0, 296.0])))
    lapse = 6.5e-3
    zt = (tsurf - T0) / lapse  # freezing level agl
    S["tsurf"] = tsurf
    # --- truth layers (agl)
    n = tr.size
    x = (tr_h - t0) / max(dur, 1e-6)
    top = 1500 + 4000 * rng.random() + 800 * np.sin(6 * x + rng.random() * 6)
    base = rng.choice([0.0, 900.0, 2500.0]) + 300 * np.sin(4 * x)
    R = rng_m[None, :]
    ice = (R > np.maximum(base, zt)[:, None]) & (R < top[:, None])
    rainy_part = np.zeros(n, bool)
    p_rain = o.get("p_rain", 0.6)
    if rng.random() < p_rain and zt > 200:
        a, b = np.sort(rng.uniform(0, 1, 2))
        rainy_part = (x > a) & (x < max(b, a + 0.25))
    rain = rainy_part[:, None] & (R <= zt + 0 * R) & (R < top[:, None])
    ice |= rainy_part[:, None] & (R > zt) & (R < np.maximum(top, zt + 1200)[:, None])
    drz = np.zeros_like(ice)
    liq_b = o.get("liq_b", float(rng.uniform(350, 2500)))
    liq_th = float(rng.uniform(150, 400))
    has_liq = (np.sin(9 * x + rng.random() * 6) > -0.3)
    S["liq_b"], S["liq_th"] = liq_b, liq_th
    drz |= has_liq[:, None] & (R > liq_b - 700) & (R < liq_b + liq_th)
    insects = (R < 900) & (rng.random((n, ng)) < 0.25) & ~rain & (tsurf > 278)
    if rng.random() < 0.35:
        insects[:] = False
    speck = rng.random((n, ng)) < 0.003
    Z = np.full((n, ng), np.nan)
    V = np.full((n, ng), np.nan)
    W = np.full((n, ng), np.nan)
    L = np.full((n, ng), np.nan)

    def put_(m, z, v, w, l):
        k = int(m.sum())
        Z[m] = rng.normal(z, 3, k)
        V[m] = rng.normal(v, 0.3, k)
        W[m] = np.abs(rng.normal(w, 0.08, k)) + 0.02
        L[m] = rng.normal(l, 2, k)
    put_(insects, -28, -0.6, 0.15, -8)
    put_(speck, -35, 1.0, 0.1, -5)
    put_(drz, -22, -0.9, 0.3, -27)
    put_(ice, -12, -0.9, 0.25, -26)
    put_(rain, 14, -5.0, 0.9, -27)
    # bright band
    bb = rainy_part[:, None] & (np.abs(R - (zt - 80)) < 1.2 * dz)
    k = int(bb.sum())
    Z[bb] = rng.normal(18, 2, k)
    V[bb] = rng.normal(-2.8, 0.3, k)
    L[bb] = rng.normal(-14, 1, k)
    W[bb] = np.abs(rng.normal(0.6, 0.1, k))
    if o.get("clutter", rng.random() < 0.6):
        m = (R < r0 + 3.5 * dz) & (rng.random((n, ng)) < 0.3) & ~rainy_part[:, None]
        Z[m] = -20
        V[m] = rng.normal(0, 0.02, int(m.sum()))
        W[m] = 0.1
        L[m] = -10
    vn = o.get("vn", float(rng.choice([5.6, 8.1, 10.5])))
    if o.get("fold", rng.random() < 0.4):
        V = (V + vn) % (2 * vn) - vn
    holes = rng.random((n, ng)) < o.get("p_hole", 0.02)
    mZ = np.isnan(Z) | holes
    mV = mZ | (rng.random((n, ng)) < 0.01)
    mW = mZ | (rng.random((n, ng)) < 0.01)
    mL = mZ | (Z < -24) | (rng.random((n, ng)) < 0.05)

    def M(a, m):
        return ma.array(np.where(np.isnan(a), 0, a).astype("f4"), mask=m)
    rad = {"time": tr_h, "range": rng_m, "height": height, "alt": alt,
           "Zh": M(Z, mZ), "v": M(V, mV), "width": M(W, mW), "ldr": M(L, mL),
           "freq": {"mira": 35.5, "rpg": 94.0, "basta": 95.0, "copernicus": 34.96}[kind],
           "source": {"mira": "METEK MIRA-35", "rpg": "RPG-Radiometer Physics RPG-FMCW-94 cloud radar",
                      "basta": "BASTA cloud radar", "copernicus": "RAL Space Copernicus"}[kind],
           "lat": 60.2, "lon": 24.9, "vn": vn}
    if o.get("freq"):
        rad["freq"] = o["freq"]
    if kind in ("basta",):
        del rad["ldr"], rad["width"]
    if kind == "rpg":
        if rng.random() < 0.4:
            rad["sldr"] = rad.pop("ldr")
        elif rng.random() < 0.3:
            del rad["ldr"]
        rr = np.where(rainy_part, 3e-6 * rng.random(n) + 5e-7, 0.0)
        rad["rainfall_rate"] = ma.array(rr.astype("f4"), mask=rng.random(n) < 0.05)
    if kind == "mira" and rng.random() < 0.3:
        del rad["ldr"]
    mode = o.get("nyq", str(rng.choice(["scalar", "chirp", "full", "prf"])))
    if mode == "chirp" and kind != "rpg":
        mode = "scalar"
    rad["nyq_mode"] = mode
    if mode == "chirp":
        nseg = 3
        # explicit starts: 0 or 1-based
        st = np.array([0, ng // 3, 2 * ng // 3]) + int(rng.integers(0, 2))
        fv = np.array([vn, vn * 0.8, vn * 1.3])
        if rng.random() < 0.5:
            rad["chirp_start_indices"] = st
            rad["nyquist_velocity"] = fv
        else:
            rad["chirp_start_indices"] = np.tile(st, (n, 1))
            rad["nyquist_velocity"] = np.tile(fv, (n, 1)) * rng.choice([1.0, 1.25], (n, 1))
    elif mode == "full":
        rad["nyquist_velocity"] = np.full((n, ng), vn) * rng.choice([1.0, 1.2], (n, 1))
    elif mode == "scalar":
        rad["nyquist_velocity"] = np.array(vn)
    else:
        rad["prf"] = np.array([vn * 4 * rad["freq"] * 1e9 / 299792458.0])
    if o.get("dealiased", rng.random() < 0.2):
        rad["correction_bits"] = np.ones((n, ng), "i4") * int(rng.choice([1, 3]))
    if o.get("moving", rng.random() < 0.2):
        rad["lat"] = 60.2 + np.cumsum(rng.normal(0, 1e-3, n))
        rad["lon"] = 24.9 + np.cumsum(rng.normal(0, 1e-3, n))
        if o.get("moving_alt"):
            rad["alt"] = alt + 60 * np.sin(np.arange(n) / 9.0 + rng.uniform(0, 6)) + rng.normal(0, 3, n)
    S["radar"] = rad
    S["rainy"] = rainy_part
    # --- lidar
    lstep = o.get("lstep", float(rng.choice([12.0, 15.0, 30.0, 45.0])))
    tl = np.arange(t0 * 3600 + rng.uniform(0, lstep), (t0 + dur) * 3600, lstep)
    keep = np.ones(tl.size, bool)
    for _ in range(o.get("lgaps", int(rng.integers(0, 3)))):
        a = rng.uniform(tl[0], tl[-1])
        keep &= ~((tl > a) & (tl < a + rng.choice([80.0, 150.0, 300.0])))
    if keep.sum() > 10:
        tl = tl[keep]
    ldz = float(rng.choice([10.0, 15.0, 30.0]))
    lr = np.arange(ldz, o.get("lmax", float(rng.choice([3500.0, 7600.0]))), ldz)
    xl = (tl / 3600 - t0) / dur
    nl = tl.size
    B = np.zeros((nl, lr.size))
    RL = lr[None, :]
    aer = RL < 1400
    B += aer * rng.lognormal(np.log(8e-7), 0.4, B.shape)
    liq_l = np.interp(xl, x, has_liq.astype(float)) > 0.5 if n > 1 else np.zeros(nl, bool)
    peak = np.exp(-((RL - (liq_b + 60)) / 40.0) ** 2) * 8e-5
    B += liq_l[:, None] * peak
    B[liq_l[:, None] & (RL > liq_b + 220)] = 0
    icel = (RL > zt) & (RL > 2000) & ~liq_l[:, None] & (np.sin(7 * xl)[:, None] > 0)
    B += icel * rng.lognormal(np.log(1e-6), 0.3, B.shape)
    mB = (B < 3e-7) | (rng.random(B.shape) < 0.02)
    for _ in range(int(rng.integers(0, 4))):
        mB[rng.integers(0, nl)] = True  # completely empty profiles
    lalt = alt + float(rng.choice([0.0, 0.0, 8.0]))
    S["lidar"] = {"time": tl / 3600, "range": lr, "height": lr + lalt, "alt": lalt,
                  "beta": ma.array(B.astype("f4"), mask=mB), "wavelength": float(rng.choice([905, 910.5, 1064])),
                  "source": "Lufft CHM15k"}
    # --- model
    S["model"] = model(rng, o, alt, tsurf, lapse)
    # --- mwr
    if o.get("mwr", rng.random() < 0.8):
        ts = np.arange(t0 * 3600 + rng.uniform(0, 20), (t0 + dur) * 3600, float(rng.choice([1.0, 10.0, 40.0])))
        keep = np.ones(ts.size, bool)
        for _ in range(int(rng.integers(0, 3))):
            a = rng.uniform(ts[0], ts[-1])
            keep &= ~((ts > a) & (ts < a + rng.choice([150.0, 300.0, 500.0])))
        ts = ts[keep] if keep.sum() > 5 else ts
        xs = (ts / 3600 - t0) / dur
        lwp = 0.08 + 0.1 * np.sin(8 * xs) + rng.normal(0, 0.01, ts.size)
        m = rng.random(ts.size) < 0.05
        d = {"time": ts / 3600, "lwp": ma.array(lwp.astype("f4"), mask=m), "source": "RPG HATPRO", "alt": alt}
        if rng.random() < 0.5:
            d["lwp_quality_flag"] = (rng.random(ts.size) < 0.1).astype("i4") * int(rng.integers(1, 4))
        S["mwr"] = d
    # --- disdrometer
    if o.get("disdro", rng.random() < 0.6):
        ts = np.arange(t0 * 3600 + rng.uniform(0, 30), (t0 + dur) * 3600, float(rng.choice([30.0, 60.0])))
        keep = np.ones(ts.size, bool)
        for _ in range(o.get("dgaps", int(rng.integers(0, 3)))):
            a = rng.uniform(ts[0], ts[-1])
            keep &= ~((ts > a) & (ts < a + rng.choice([100.0, 250.0, 600.0])))
        ts = ts[keep] if keep.sum() > 5 else ts
        xs = (ts / 3600 - t0) / dur
        rp = np.interp(xs, x, rainy_part.astype(float))
        rr = rp * rng.uniform(2e-7, 2e-6, ts.size)
        npart = np.round(rp * rng.uniform(20, 400, ts.size))
        d = {"time": ts / 3600, "rainfall_rate": ma.array(rr.astype("f4"), mask=rng.random(ts.size) < 0.02),
             "n_particles": ma.array(npart.astype("i4")), "source": "OTT HydroMet Parsivel2", "alt": alt}
        if rng.random() < 0.5:
            d["synop_WaWa"] = np.where(rp > 0.5, rng.choice([61, 61, 61, 71]), 0).astype("i4")
        S["disdrometer"] = d
    for k in ("radar", "lidar", "model", "mwr", "disdrometer"):
        if k in S:
            S[k]["uuid"] = rand_uuid(rng)
    return S


def model(rng, o, alt, tsurf, lapse):
    mt = np.arange(0, 25, float(rng.choice([1.0, 3.0])))
    nh = int(rng.integers(18, 30))
    agl = np.concatenate([[10.0], np.cumsum(rng.uniform(150, 600, nh - 1))])
    agl = agl * (15500.0 / agl[-1])
    H = np.tile(agl, (mt.size, 1)) + rng.uniform(-1, 1, (mt.size, 1)) * o.get("mspread", 2.0) * (agl > 100)
    sfc = None
    if rng.random() < 0.4:
        sfc = np.full(mt.size, alt + rng.uniform(-60, 40))
    diurnal = 1.5 * np.sin(mt / 24 * 2 * np.pi)[:, None]
    T = np.maximum(tsurf + diurnal - lapse * H, 205 + 0.0005 * H)
    P = 101325 * np.exp(-(H + alt) / 7800.0)
    rh = np.clip(0.85 - H / 20000 + 0.05 * rng.normal(size=H.shape), 0.02, 1.0)
    es = 611.2 * np.exp(17.67 * (T - T0) / (T - 29.65))
    q = 0.622 * rh * es / (P - 0.378 * rh * es)
    d = {"time": mt, "height": H, "temperature": T, "pressure": P, "rh": rh, "q": q,
         "uwind": 5 + H / 1000, "vwind": -3 + 0 * H, "sfc_height": sfc,
         "type": str(rng.choice(["ecmwf", "icon", "gdas1"])), "lat": 60.0, "lon": 25.0}
    return d


# ------------------------------------------------------------------ writers
def w_time(nc, d, date=DATE):
    nc.createDimension("time", len(d["time"]))
    put(nc, "time", d["time"], ("time",), f"hours since {'-'.join(date)} 00:00:00 +00:00", dtype=d.get("tdtype", "f8"))


def write_radar(path, d, date=DATE):
    with _nc(path) as nc:
        _globals(nc, "radar", d["source"], d["uuid"], date)
        w_time(nc, d, date)
        nc.createDimension("range", len(d["range"]))
        put(nc, "range", d["range"], ("range",), "m")
        put(nc, "height", d["height"], ("range",), "m")
        put(nc, "altitude", d["alt"], () if np.ndim(d["alt"]) == 0 else ("time",), "m")
        for k, n in (("lat", "latitude"), ("lon", "longitude")):
            put(nc, n, d[k], () if np.ndim(d[k]) == 0 else ("time",), "degree")
        put(nc, "radar_frequency", d["freq"], (), "GHz")
        units = {"Zh": "dBZ", "v": "m s-1", "width": "m s-1", "ldr": "dB", "sldr": "dB"}
        for k, u in units.items():
            if k in d:
                put(nc, k, d[k], ("time", "range"), u)
        if "rainfall_rate" in d:
            put(nc, "rainfall_rate", d["rainfall_rate"], ("time",), "m s-1")
        if "nyquist_velocity" in d:
            nv = np.asarray(d["nyquist_velocity"])
            if nv.shape == d["v"].shape:
                put(nc, "nyquist_velocity", nv, ("time", "range"), "m s-1")
            elif nv.ndim == 0:
                put(nc, "nyquist_velocity", nv, (), "m s-1")
            else:
                nc.createDimension("chirp_sequence", nv.shape[-1])
                dims = ("chirp_sequence",) if nv.ndim == 1 else ("time", "chirp_sequence")
                put(nc, "nyquist_velocity", nv, dims, "m s-1")
                put(nc, "chirp_start_indices", d["chirp_start_indices"], dims, "1", dtype="i4")
        else:
            nc.createDimension("one", 1)
            put(nc, "prf", d["prf"], ("one",), "Hz")
        if "correction_bits" in d:
            put(nc, "correction_bits", d["correction_bits"], ("time", "range"), "1", dtype="i4")


def write_lidar(path, d, date=DATE):
    with _nc(path) as nc:
        _globals(nc, "lidar", d["source"], d["uuid"], date)
        w_time(nc, d, date)
        nc.createDimension("range", len(d["range"]))
        put(nc, "range", d["range"], ("range",), "m")
        if not d.get("no_height"):
            km = d.get("km")
            put(nc, "height", d["height"] / (1000 if km else 1), ("range",), "km" if km else "m")
        put(nc, "altitude", d["alt"] / (1000 if d.get("alt_km") else 1), (), "km" if d.get("alt_km") else "m")
        put(nc, "wavelength", d["wavelength"], (), "nm")
        put(nc, "beta", d["beta"], ("time", "range"), "sr-1 m-1")


def write_model(path, d, date=DATE):
    with _nc(path) as nc:
        _globals(nc, "model", "Integrated Forecast System (IFS)", d["uuid"], date)
        del nc.file_uuid
        nc.file_uuid = str(d["uuid"])
        w_time(nc, d, date)
        nc.createDimension("level", d["height"].shape[1])
        put(nc, "height", d["height"], ("time", "level"), "m")
        u = {"temperature": "K", "pressure": "Pa", "rh": "1", "q": "1", "uwind": "m s-1", "vwind": "m s-1"}
        for k, un in u.items():
            put(nc, k, d[k], ("time", "level"), un)
        for k, un in d.get("extra2d", {}).items():
            put(nc, k, d[k], ("time", "level"), un)
        if d.get("sfc_height") is not None:
            put(nc, "sfc_height", d["sfc_height"], ("time",), "m")
        put(nc, "latitude", d["lat"], (), "degree_north")
        put(nc, "longitude", d["lon"], (), "degree_east")
        if "horizontal_resolution" in d:
            put(nc, "horizontal_resolution", d["horizontal_resolution"], ("time",), "km")


def write_mwr(path, d, date=DATE):
    with _nc(path) as nc:
        _globals(nc, "mwr", d["source"], d["uuid"], date)
        w_time(nc, d, date)
        put(nc, "lwp", d["lwp"], ("time",), "kg m-2")
        put(nc, "altitude", d["alt"], (), "m")
        if "lwp_quality_flag" in d:
            put(nc, "lwp_quality_flag", d["lwp_quality_flag"], ("time",), "1", dtype="i4")


def write_disdrometer(path, d, date=DATE):
    with _nc(path) as nc:
        _globals(nc, "disdrometer", d["source"], d["uuid"], date)
        w_time(nc, d, date)
        put(nc, "rainfall_rate", d["rainfall_rate"], ("time",), "m s-1")
        put(nc, "n_particles", d["n_particles"], ("time",), "1", dtype="i4")
        put(nc, "altitude", d["alt"], (), "m")
        if "synop_WaWa" in d:
            put(nc, "synop_WaWa", d["synop_WaWa"], ("time",), "1", dtype="i4")


WRITERS = {"radar": write_radar, "lidar": write_lidar, "model": write_model,
           "mwr": write_mwr, "disdrometer": write_disdrometer}


def write_scene(S, d, tag="in"):
    files = {}
    for k, w in WRITERS.items():
        if k in S:
            name = f"{tag}_{k}.nc" if k != "model" else f"{tag}_{S[k]['type']}.nc"
            files[k] = os.path.join(d, name)
            w(files[k], S[k], S["date"])
    return files


def read(path):
    """{name: masked array}, attrs"""
    out = {}
    with netCDF4.Dataset(path) as nc:
        for k, v in nc.variables.items():
            out[k] = ma.array(v[:])
        attrs = {a: nc.getncattr(a) for a in nc.ncattrs()}
    return out, attrs


def attrs(path, name):
    with netCDF4.Dataset(path) as nc:
        v = nc.variables.get(name)
        return {a: v.getncattr(a) for a in v.ncattrs()} if v is not None else {}
