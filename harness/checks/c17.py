"""C17: geometry (range, height, zenith angle) and site coordinates of converted files
follow the pointing of the instrument and the documented order of coordinate sources."""
import datetime

import netCDF4
import numpy as np
from numpy import ma

from .. import nccase, textfmt
from .. import textconv as tc
from ..runner import Obs

ID, LEVEL = "C17", "exploration"
RULE = ('raw files of 18 netCDF, HDF5 and binary formats and of text logs with all combinations of user-given, GPS and raw-file coordinates '
        '(both longitude conventions, hemispheres as sign or letter, zero and missing GPS samples, stationary and moving platforms) and pointing angles; '
        'coordinates of the converted file compared with an independent resolver, height with altitude + range cos(zenith); distinct by format and seed')
ASSUMPTIONS = ['altitude is given by at least one source where a height is written',
               'movement is well below or well above the limit of the stationary classification',
               'raw-file coordinates are given in files converted one at a time']
MIN = {'files': 900, 'coordinates': 2700, 'heights': 900, 'ranges': 900, 'zeniths': 400, 'gps': 100, 'gps_moving': 40, 'along_parallel': 8, 'near_limit': 10, 'gps_zero': 15, 'gps_masked': 15,
       'raw_file': 100, 'attributes': 40, 'wrapped': 120, 'negative': 500, 'absent': 60, 'zero_coordinate': 30, 'tilted': 250, 'zenith_outliers': 15}

# the coordinates of hatpro-l1c are handled by mwrpy
NAMES = [x for x in nccase.NAMES if x != "hatpro-l1c"]
GPS = ("basta", "bowtie", "rpg")
VARS = ("basta", "bowtie", "copernicus", "galileo", "mrr")
ATTRS = ("mira",)
# formats whose altitude is needed from the user
NEEDS_ALT = lambda name: name not in ("basta", "bowtie", "copernicus", "galileo", "mrr", "mira")


def cases(tier, seed):
    n = 70 if tier == "quick" else 220
    out = [{"seed": seed * 100000 + i * 100 + j, "kind": "nc", "fmt": f} for i in range(n) for j, f in enumerate(NAMES)]
    m = 4 if tier == "quick" else 12
    out += [{"seed": seed * 100000 + i * 100 + 50 + j, "kind": "text", "fmt": f} for i in range(m) for j, f in enumerate(sorted(textfmt.ALL))]
    return out


def f32(x):
    return float(np.float32(x))


def place(rng):
    """latitude, longitude within -180..180"""
    lat = float(rng.choice([rng.uniform(-89, 89), rng.uniform(-89, -1), 0.0 if rng.random() < .3 else rng.uniform(1, 80)]))
    lon = float(rng.choice([rng.uniform(-180, 180), rng.uniform(-180, -1), rng.uniform(-.5, .5), 0.0 if rng.random() < .3 else 179.999]))
    return round(lat, 4), round(lon, 4)


def wrap(x):
    return np.where(np.asarray(x, float) > 180, np.asarray(x, float) - 360, x)


def user(rng, obs, alt_needed):
    """user-given coordinates, any subset, any number type -> (site entries, values)"""
    lat, lon = place(rng)
    v = {"latitude": lat, "longitude": lon, "altitude": float(int(rng.choice([0, rng.integers(1, 900), rng.integers(1000, 5000), -rng.integers(1, 400)])))}
    keep = {k for k in v if rng.random() < .65 or (k == "altitude" and alt_needed)}
    site = {}
    for k in keep:
        x = v[k]
        if k == "longitude" and x < 0 and rng.random() < .3:
            site[k] = round(x + 360, 4)
            obs.n("wrapped")
        else:
            site[k] = x
        t = rng.random()
        if t < .15 and float(site[k]).is_integer():
            site[k] = int(site[k])
        elif t < .3:
            site[k] = np.float64(site[k])
        if x < 0:
            obs.n("negative")
        if x == 0:
            obs.n("zero_coordinate")
    return site, {k: v[k] for k in keep}


def track(rng, obs, n, pure_stationary=False):
    """GPS samples of n profiles -> lat, lon arrays with NaN for a missing sample, raw convention"""
    lat0, lon0 = place(rng)
    kind = str(rng.choice(["still", "still", "moving", "moving", "zero", "missing", "lost"]))
    if pure_stationary and kind == "moving":
        kind = "still"
    lat0 = float(np.clip(lat0, -80, 80))
    if lat0 == 0:
        lat0 = .5
    if abs(lon0) < .1:
        lon0 = .7
    lat, lon = np.full(n, lat0), np.full(n, lon0)
    if kind == "moving":
        # well above the limit of 0.01 degrees (scaled in longitude)
        d = float(rng.choice([.05, .5, 3.0]))
        a = rng.uniform(0, 2 * np.pi)
        lat = lat0 + d * np.sin(a) * np.linspace(0, 1, n) + .02 * np.linspace(0, 1, n)
        lon = lon0 + d * np.cos(a) * np.linspace(0, 1, n)
        if rng.random() < .4:  # along a parallel, just over the limit
            lat = np.full(n, lat0)
            lon = lon0 + rng.uniform(1.4, 3) * .01 / np.cos(np.radians(lat0)) * np.linspace(0, 1, n)
            obs.n("along_parallel")
        lon = (lon + 180) % 360 - 180
    elif rng.random() < .4:  # within a kilometre
        lat = lat + rng.uniform(-.0035, .0035, n)
        w = .7 * .01 / np.cos(np.radians(lat0))
        lon = np.clip(lon0, -179, 179) + rng.uniform(-w / 2, w / 2, n)
        obs.n("near_limit")
    else:
        lat = lat + rng.uniform(-.002, .002, n)
        lon = lon + rng.uniform(-.002, .002, n)
        lon = np.where(lon > 179.99, 179.99, np.where(lon < -179.99, -179.99, lon))
    lat, lon = np.round(lat, 5), np.round(lon, 5)
    if kind == "zero":
        i = rng.random(n) < .3
        i[int(rng.integers(n))] = False
        lat[i] = lon[i] = 0.0
        obs.n("gps_zero")
    elif kind == "missing":
        i = rng.random(n) < .3
        i[int(rng.integers(n))] = False
        lat[i] = lon[i] = np.nan
        obs.n("gps_masked")
    elif kind == "lost":
        lat[:] = lon[:] = float(rng.choice([0.0, np.nan]))
        obs.n("gps_lost")
    if kind in ("still", "moving", "zero", "missing") and rng.random() < .4:
        lon = np.where((lon < 0) & ~np.isnan(lon), lon + 360, lon)
        obs.n("wrapped")
    return lat, lon, kind


def amend(path, variables, attrs):
    with netCDF4.Dataset(path, "a") as nc:
        for k, (dims, x) in variables.items():
            x = ma.masked_invalid(np.asarray(x, float))
            v = nc.variables.get(k)
            if v is None:
                v = nc.createVariable(k, "f8", dims, fill_value=-999.0)
                v.units = "m" if k in ("altitude", "height") else "degree"
            v[...] = x
        for k, x in attrs.items():
            nc.setncattr(k, x)


def attribute(rng, key, x):
    """the ways METEK files give a coordinate -> attribute"""
    if key == "Altitude":
        return str(rng.choice([f"{x:g}m", f"{x:g} m", f"{x:g}", f"{x:.1f}m"]))
    pos, neg = ("N", "S") if key == "Latitude" else ("E", "W")
    s = f"{abs(x):.4f}"
    how = int(rng.integers(4))
    if how == 0:
        return s + (neg if x < 0 else pos)
    if how == 1:
        return f"{s} {neg if x < 0 else pos}"
    if how == 2:
        return f"{x:.4f}"
    return np.float64(x)


def resolve(gps, given, raw):
    """documented order of sources -> {key: value or array}"""
    e = {}
    for k in ("latitude", "longitude", "altitude"):
        if k != "altitude" and gps is not None:
            g = gps[0 if k == "latitude" else 1]
            g = np.where(g == 0, np.nan, g)
            if np.any(~np.isnan(g)):
                e[k] = wrap(g) if k == "longitude" else g
                continue
        if k in given:
            e[k] = given[k]
        elif k in raw:
            e[k] = raw[k]
    return e


def still(lat, lon):
    lat, lon = np.atleast_1d(lat).astype(float), np.atleast_1d(lon).astype(float)
    dlat, dlon = np.nanmax(lat) - np.nanmin(lat), np.nanmax(lon) - np.nanmin(lon)
    mid = (np.nanmax(lat) + np.nanmin(lat)) / 2
    return dlat <= .01 and dlon <= .01 / np.cos(np.radians(mid))


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    (text if spec["kind"] == "text" else nc)(obs, spec, rng, str(tmp))
    obs.n("fmt:" + spec["fmt"])
    obs.sig = f"{spec['fmt']}-{spec['seed']}"
    obs.sample = {"format": spec["fmt"], "observed": dict(obs.counts)}
    return obs


def text(obs, spec, rng, tmp):
    fmt = textfmt.ALL[spec["fmt"]]()
    day = datetime.date(2025, 5, int(rng.integers(1, 28)))
    off = fmt.offset()
    recs = [fmt.new(rng, t - off) for t in tc.times(rng, day, max(8, fmt.min_records), 600)]
    if fmt.name == "fd12p" and all(tc.all_missing(fmt, r) for r in recs):
        obs.nontrivial = False
        return
    base = fmt.meta
    site, given = user(rng, obs, False)

    def site_meta(*a, **k):
        m = dict(base(*a, **k))
        for q in ("latitude", "longitude", "altitude"):
            m.pop(q, None)
        return m | site
    fmt.meta = site_meta
    p = fmt.write(tmp + "/raw", recs)
    out, e = tc.convert(fmt, [p], tmp + "/out.nc")
    if obs.check(e is None, "conversion-failed", lambda: f"{fmt.name}: {e!r} with {site}"):
        obs.n("files")
        coordinates(obs, fmt.name, out, {k: given[k] for k in given}, None, given)


def nc(obs, spec, rng, tmp):
    name = spec["fmt"]
    day = datetime.date(2025, int(rng.integers(1, 13)), int(rng.integers(2, 28)))
    n = int(rng.integers(4, 16))
    fmt = nccase.make(rng, name, n)
    site, given = user(rng, obs, NEEDS_ALT(name))
    fmt.multi = fmt.multi and name not in VARS
    variables, attrs, raw, gps = {}, {}, {}, None
    pointing(rng, obs, fmt)
    recs = [fmt.new(rng, t) for t in tc.times(rng, day, n, [10, 60][int(rng.integers(2))], fmt.res)]
    kind, hill = "", False
    if name == "basta" and rng.random() < .7 or name == "bowtie":
        lat, lon, kind = track(rng, obs, n)
        fmt.has_gps = False
        if name == "basta" and kind != "moving" and rng.random() < .3:
            lat, lon = lat[:1].repeat(n), lon[:1].repeat(n)
            kind = "scalar"
        for r, a, b in zip(recs, lat, lon, strict=True):
            r["lat"], r["lon"] = a, b
        gps = True
    elif name == "basta":
        fmt.has_gps = False
    elif name == "rpg":
        lat, lon, kind = track(rng, obs, len(fmt.cfgs))
        if kind == "missing":
            lat, lon = np.nan_to_num(lat), np.nan_to_num(lon)
        lat, lon = np.nan_to_num(lat), np.nan_to_num(lon)
        lat, lon = lat.astype("f4").astype(float), lon.astype("f4").astype(float)
        for c, a, b in zip(fmt.cfgs, lat, lon, strict=True):
            c["lat"], c["lon"] = float(a), float(b)
        for r in recs:
            c = fmt.cfgs[r["cfg"]]
            r["lat"], r["lon"] = c["lat"], c["lon"]
        gps = True
    if gps:
        obs.n("gps")
        if kind == "moving":
            obs.n("gps_moving")
    if name in ("copernicus", "galileo", "mrr", "basta", "bowtie"):
        a, b = place(rng)
        alt = float(int(rng.integers(1, 3000)))
        v = {"latitude": f32(a), "longitude": f32(b), "altitude": alt}
        if name == "mrr" and (a == 0 or b == 0):
            a, b = a or 3., b or 3.
            v.update(latitude=f32(a), longitude=f32(b))
        akey = "height" if name in ("copernicus", "galileo") else "altitude"
        w = v["longitude"]
        if w < 0 and rng.random() < .5:
            w += 360
            obs.n("wrapped")
        if name not in ("basta", "bowtie"):
            variables = {"latitude": ((), v["latitude"]), "longitude": ((), w)}
            raw = {k: v[k] for k in ("latitude", "longitude")}
            if name in ("copernicus", "galileo"):
                raw["longitude"] = float(wrap(f32(w)))
        variables[akey] = ((), alt)
        raw["altitude"] = alt
        if name == "mrr":
            if rng.random() < .3:
                variables, raw = {}, {}
        if name == "basta" and rng.random() < .3:
            x = alt + rng.uniform(-30, 30, n)
            if rng.random() < .5:  # over a hill and back
                hill = True
                x = alt + rng.uniform(150, 400) * np.sin(np.linspace(0, np.pi, n)) + rng.uniform(-5, 5, n)
                obs.n("hill")
            for r, y in zip(recs, x, strict=True):
                r["alt"] = float(y)
            raw["altitude"] = float(x.mean())
            variables.pop("altitude")
            obs.n("altitude_varying")
        obs.n("raw_file")
    elif name == "mira":
        if rng.random() < .8:
            a, b = place(rng)
            alt = float(int(rng.integers(1, 3000)))
            raw = {"latitude": a, "longitude": b, "altitude": alt}
            attrs = {k.capitalize(): attribute(rng, k.capitalize(), x) for k, x in raw.items()}
            obs.n("attributes")
        else:
            attrs = {k: "Unknown" for k in ("Latitude", "Longitude", "Altitude")}
    if "altitude" not in given and "altitude" not in raw:
        given["altitude"] = 10.0
        site["altitude"] = 10.0
    full = fmt.site
    meta = {k: v for k, v in full.items() if k not in ("latitude", "longitude", "altitude")} | site
    run = fmt.run

    def run_with(*a, **k):
        fmt.site = dict(meta)
        try:
            return run(*a, **k)
        finally:
            fmt.site = full
    fmt.run = run_with
    write = fmt.write
    outliers = None
    if name in ("chm15k", "cl61", "da10") and n >= 8 and rng.random() < .4:
        # readings of the inclination sensor: the direction is their median
        outliers = [fmt.zen] * n
        for i in rng.permutation(n)[:2]:
            outliers[i] = fmt.zen + float(rng.choice([7.0, 1.0]))
        obs.n("zenith_outliers")

    def both(path, rr):
        write(path, rr)
        if outliers is not None:
            at = {r["t"]: z for r, z in zip(recs, outliers, strict=True)}
            with netCDF4.Dataset(path, "a") as f:
                f[fmt.zkey][:] = [at[r["t"]] for r in rr]
        if name in (*VARS, *ATTRS):
            v = dict(variables)
            if gps:
                scalar = kind == "scalar"
                v["latitude"] = ((), rr[0]["lat"]) if scalar else (("time",), [r["lat"] for r in rr])
                v["longitude"] = ((), rr[0]["lon"]) if scalar else (("time",), [r["lon"] for r in rr])
            if rr and "alt" in rr[0]:
                v["altitude"] = (("time",), [r["alt"] for r in rr])
            amend(path, v, attrs)
    fmt.write = both
    order = [recs[i] for i in rng.permutation(n)] if name in ("basta", "bowtie", "mrr") and rng.random() < .5 else recs
    arg = fmt.files(tmp + "/in", fmt.regroup(nccase.partition(rng, fmt, order, obs)))
    if nccase.no_data(fmt, recs):
        obs.nontrivial = False
        return
    out, e = nccase.convert(fmt, arg, tmp + "/out.nc")
    if out is None and name == "ct25k" and isinstance(e, ZeroDivisionError):
        obs.nontrivial = False
        return
    if not obs.check(out is not None, "conversion-failed:" + name, lambda: f"{name}: {e!r} with site_meta {meta}, raw {raw}, gps {kind}"):
        return
    obs.n("files")
    kept = fmt.kept(recs)
    hours = np.array([(r["t"] - datetime.datetime.combine(day, datetime.time())).total_seconds() / 3600 for r in kept])
    t = np.asarray(out["vars"]["time"], float)
    if t.shape != hours.shape or np.max(np.abs(t - hours)) > 1e-4:
        obs.n("other_profiles")  # judged by C13 and C16
        idx = [int(np.argmin(np.abs(hours - x))) for x in t]
        kept = [kept[i] for i in idx]
    g = None
    if gps:
        rr = kept if name == "rpg" else recs
        g = (np.array([r["lat"] for r in rr], float), np.array([r["lon"] for r in rr], float))
    e = resolve(g, given, raw)
    if hill and "altitude" not in given:
        e["altitude"] = np.array([r["alt"] for r in kept])
    if gps and name != "rpg":
        # position of the written profiles
        lat = np.array([r["lat"] for r in kept], float)
        lon = np.array([r["lon"] for r in kept], float)
        per = (np.where(lat == 0, np.nan, lat), wrap(np.where(lon == 0, np.nan, lon)))
    else:
        per = g
    coordinates(obs, name, out, e, per, given)
    geometry(obs, fmt, out, kept, recs, e)


def coordinates(obs, name, out, e, per, given=()):
    given_lon = "longitude" in given and not np.ndim(e["longitude"])
    V = out["vars"]
    for k in ("latitude", "longitude", "altitude"):
        if k not in e:
            obs.n("absent")
            obs.check(k not in V, f"unknown-coordinate:{k}", lambda: f"{name}: {k} = {V[k]} but no source gives it")
    exp = dict(e)
    moving = "latitude" in e and "longitude" in e and not still(e["latitude"], e["longitude"])
    for k in ("latitude", "longitude"):
        if k in exp and np.ndim(exp[k]):
            if "latitude" in e and "longitude" in e:
                exp[k] = (per[0] if k == "latitude" else wrap(per[1])) if moving else float(np.nanmean(exp[k]))
    for k, x in exp.items():
        if not obs.check(k in V, f"missing-coordinate:{k}", lambda k=k, x=x: f"{name}: {k} is not in the file, expected {x}"):
            continue
        obs.n("coordinates")
        got = ma.asarray(V[k])
        want = np.asarray(x, float)
        if want.ndim == 0 and got.ndim == 1:  # a position may be repeated for each profile
            want = np.full(got.shape, want)
        if not obs.check(got.shape == want.shape, f"coordinate-shape:{k}", lambda k=k: f"{name}: {k} has shape {got.shape}, expected {want.shape} ({'moving' if moving else 'stationary'})"):
            continue
        gm = ma.getmaskarray(got)
        d = np.abs(got.filled(0) - np.nan_to_num(want))
        if k == "longitude" and given_lon:  # a user-given longitude may be kept as given
            d = np.minimum(d, np.abs(d - 360))
        tol = 2e-6 * np.abs(np.nan_to_num(want)) + 2e-5
        if k != "altitude":
            tol = tol + ((1e-4 if not np.ndim(e[k]) else float(np.nanmax(e[k]) - np.nanmin(e[k])) + 1e-4) if not np.ndim(x) else 0)
        ok = (gm == np.isnan(want)) & (gm | (d <= tol))
        obs.check(bool(np.all(ok)), f"coordinate:{k}", lambda k=k: f"{name}: {k} = {got}, expected {want}")
        if k == "longitude" and not given_lon:
            obs.check(bool(np.all((got.filled(0) >= -180) & (got.filled(0) <= 180))), "longitude-range", lambda: f"{name}: longitude {got}")
        elif k == "latitude":
            obs.check(bool(np.all(np.abs(got.filled(0)) <= 90)), "latitude-range", lambda: f"{name}: latitude {got}")


def pointing(rng, obs, fmt):
    """directions the instrument can have"""
    name = fmt.name
    if rng.random() < .3:
        return
    if name == "basta":
        fmt.elev = f32(round(float(rng.uniform(60, 90)), 2))
    elif name in ("copernicus", "galileo"):
        fmt.el0 = f32(round(float(90 + rng.uniform(-.9, .9)), 2))
    elif name == "mira":
        fmt.el0 = f32(round(float(90 - rng.uniform(0, .9)), 2))
        if fmt.zoff:
            fmt.el0 = 90.0
    elif name == "mrr":
        fmt.el0 = f32(round(float(rng.uniform(70, 90)), 2))
    elif name in ("chm15k", "cl61", "da10", "cs135"):
        fmt.zen = float(int(rng.integers(0, 46)))
    elif name == "pollyxt":
        fmt.zen = float(int(rng.integers(0, 15)))
        fmt.site["zenith_angle"] = int(fmt.zen)
    obs.n("tilted")


def geometry(obs, fmt, out, kept, recs, e):
    V, name = out["vars"], fmt.name
    if "range" in V:
        r = np.asarray(V["range"], float)
        obs.n("ranges")
        obs.check(bool(np.all(np.isfinite(r)) and np.all(r >= 0) and np.all(np.diff(r) > 0)), "range-not-increasing", lambda: f"{name}: range {r[:6]}")
        obs.check(not ma.getmaskarray(V["range"]).any(), "range-missing", lambda: f"{name}: range has missing values")
    z = fmt.zenith(kept) if kept else 0.0
    if "zenith_angle" in V and getattr(fmt, "angles", True) and name not in ("hatpro", "radiometrics", "wvr"):
        g = ma.asarray(V["zenith_angle"])
        obs.n("zeniths")
        tol = .05 if name == "rpg" or getattr(fmt, "tol", {}).get("zenith_angle") else 2e-4
        if name in ("rpg", "copernicus", "galileo"):
            x = np.array([90 - r["el"] for r in kept])
        else:
            x = np.full(np.shape(g), z)
        obs.check(g.shape == x.shape and bool(np.all(np.abs(g - x) <= tol)), "zenith-angle", lambda: f"{name}: zenith_angle {g}, expected {x}")
    if "height" in V and "range" in V and "altitude" in e:
        h = np.asarray(V["height"], float)
        r = np.asarray(fmt.out_range(), float)
        obs.n("heights")
        want = np.asarray(e["altitude"]).mean() + r * np.cos(np.deg2rad(z))
        obs.check(h.shape == want.shape and bool(np.all(np.abs(h - want) <= .02 + 2e-6 * np.abs(want) + (r * 3e-5 if name == "rpg" else 0))), "height",
                  lambda: f"{name}: height {h[:4]}, expected {want[:4]} (altitude {e['altitude']}, zenith angle {z}, range {r[:4]})")
        # relation inside the file
        zf = float(ma.median(V["zenith_angle"])) if "zenith_angle" in V and V["zenith_angle"] is not None and ma.count(V["zenith_angle"]) and name not in ("hatpro", "radiometrics", "wvr") else 0.0
        rel = np.asarray(V["altitude"], float).mean() + np.asarray(V["range"], float) * np.cos(np.deg2rad(zf))
        obs.check(h.shape == rel.shape and bool(np.all(np.abs(h - rel) <= .02 + 5e-6 * np.abs(rel))), "height-in-file",
                  lambda: f"{name}: height {h[:4]}, but altitude + range cos(zenith) gives {rel[:4]}")
