"""Raw netCDF/HDF5 instrument formats: generators with ground truth, writers, and the
values a converted file must hold.  A record is one profile: {"t": datetime, name: value or vector}."""
import copy
import datetime
import os

import netCDF4
import numpy as np
from numpy import ma

from . import gen

UTC = datetime.timezone.utc
E1970 = datetime.datetime(1970, 1, 1)
E2001 = datetime.datetime(2001, 1, 1)


def secs(t, epoch):
    return (t - epoch).total_seconds()


def midnight(t):
    return datetime.datetime.combine(t.date() if isinstance(t, datetime.datetime) else t, datetime.time())


def write_nc(path, dims, variables, attrs, fmt="NETCDF4", groups=None):
    """variables: list of (name, dtype, dims, data, attrs, fill)"""
    with netCDF4.Dataset(path, "w", format=fmt) as nc:
        for k, n in dims.items():
            nc.createDimension(k, n)
        for name, dt, dd, data, at, fill in variables:
            v = nc.createVariable(name, dt, dd, fill_value=gen.filler('', name, data, np.dtype(dt).str[1:]) if fill is not None and np.ma.isMaskedArray(data) and not (np.ma.getdata(data) == fill).any() else fill)
            for a, x in at.items():
                setattr(v, a, x)
            v[:] = data
        for a, x in attrs.items():
            setattr(nc, a, x)


def stack(recs, key):
    return ma.array([ma.filled(ma.asarray(r[key], float), np.nan) for r in recs], dtype=float)


def nan_masked(a):
    return ma.masked_invalid(ma.asarray(a, float))


def profile(rng, n, lo, hi, pmiss=.25, dec=3):
    x = np.round(rng.uniform(lo, hi, n), dec)
    x[rng.random(n) < pmiss] = np.nan
    return x


def pick(rng, *xs):
    return xs[int(rng.integers(len(xs)))]


class NcFmt:
    name = ""
    multi = False          # several files accepted
    days = False           # several days in one input, screened by date
    res = 1                # time resolution, seconds
    subsec = False         # time stored as floating point
    nodate_error = ("ValidTimeStampError",)
    min_records = 2
    ext = ".nc"
    gps = False
    lo_gates, hi_gates = 3, 14
    time_tol = 2e-6        # hours, f4 time
    dup_local = True       # duplicates are removed without a requested date

    def __init__(self, rng, n_gates=None):
        self.rng = rng
        self.n = int(n_gates or rng.integers(self.lo_gates, self.hi_gates))
        self.site = {"name": "Testsite", "latitude": round(float(rng.uniform(-89, 89)), 4), "longitude": round(float(rng.uniform(-179, 179)), 4), "altitude": float(int(rng.integers(0, 900)))}
        self.setup(rng)

    def setup(self, rng):
        self.range = self.make_range(rng)

    def make_range(self, rng):
        step = float(int(rng.integers(10, 60)))
        return np.arange(1, self.n + 1) * step + float(int(rng.integers(0, 200)))

    def new(self, rng, t):
        r = {"t": t}
        r.update(self.values(rng))
        return r

    def kept(self, recs):
        """records the converter is documented to keep; recs are sorted and unique"""
        return recs

    def files(self, d, parts):
        """writes parts (lists of records) under directory d -> argument of the converter"""
        os.makedirs(d, exist_ok=True)
        out = []
        for i, p in enumerate(parts):
            f = f"{d}/{self.filename(i, p)}{self.ext}"
            self.write(f, p)
            out.append(f)
        return out[0] if not self.multi else self.arg(d, out)

    def filename(self, i, recs):
        return f"raw{i:02d}"

    def arg(self, d, files):
        return d

    def regroup(self, parts):
        """files as the instrument can write them"""
        return parts

    def zenith(self, recs):
        return 0.0

    def common(self, recs):
        h = np.array([secs(r["t"], midnight(r["t"])) / 3600 for r in recs])
        z = self.zenith(recs)
        rg = self.out_range()
        return {"time": h, "range": rg, "height": rg * np.cos(np.deg2rad(z)) + self.altitude()}

    def altitude(self):
        return self.site["altitude"]

    def gps_values(self, rng):
        d = rng.uniform(-2, 2, 2) if self.moving else (.001, .001)
        return {"lat": round(float(np.clip(self.site["latitude"] + d[0], -89, 89)), 4), "lon": round(self.site["longitude"] * .95 + float(d[1]), 4)}

    def gps_expected(self, e, recs):
        lat, lon = (np.array([r[q] for r in recs]) for q in ("lat", "lon"))
        still = np.ptp(lat) <= .01 and np.ptp(lon) <= .01 / np.cos(np.deg2rad((lat.min() + lat.max()) / 2))
        e["latitude"], e["longitude"] = (float(lat.mean()), float(lon.mean())) if still else (lat, lon)

    def out_range(self):
        return self.range


# ---------------------------------------------------------------- radars

class Basta(NcFmt):
    subsec = True
    name = "basta"

    def setup(self, rng):
        super().setup(rng)
        self.nyq = round(float(rng.uniform(4, 10)), 3)
        self.elev = float(pick(rng, 90.0, 90.0, 88.5))
        self.has_gps = bool(rng.random() < .6)
        self.moving = bool(rng.random() < .5)

    def values(self, rng):
        n = self.n
        return {"Z": profile(rng, n, -50, 20, .02), "v": profile(rng, n, -6, 4, .02), "m": (rng.random(n) < .7).astype(int),
                "p": round(float(rng.normal()), 3), "y": round(float(rng.uniform(-180, 180)), 2), "r": round(float(rng.normal()), 3),
                **self.gps_values(rng)}

    def write(self, path, recs):
        day = recs[0]["t"].date()
        T, R = ("time",), ("time", "range")
        v = [("elevation", "f4", (), self.elev, {"units": "degrees"}, None), ("range", "f8", ("range",), self.range, {"units": "m"}, None),
             ("ambiguous_velocity", "f4", (), self.nyq, {}, None),
             ("time", "f8", T, [secs(r["t"], midnight(day)) for r in recs], {"units": f"seconds since {day} 00:00:00"}, None),
             ("reflectivity", "f4", R, stack(recs, "Z"), {"units": "dBZ"}, None), ("velocity", "f4", R, stack(recs, "v"), {"units": "m.s-1"}, None),
             ("background_mask", "i1", R, np.array([r["m"] for r in recs]), {}, None)]
        v += [(f"radar_{k}", "f4", T, [r[k[0]] for r in recs], {"units": "degree"}, None) for k in ("pitch", "yaw", "roll")]
        if self.has_gps:
            v += [(k, "f4", T, [r[q] for r in recs], {}, None) for k, q in (("latitude", "lat"), ("longitude", "lon"))]
        write_nc(path, {"time": len(recs), "range": self.n}, v, {"year": str(day.year), "month": str(day.month), "day": str(day.day)})

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import basta2nc
        return basta2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def zenith(self, recs):
        return 90 - self.elev

    def expected(self, recs):
        e = self.common(recs)
        bad = np.array([r["m"] for r in recs]) != 1
        e["Zh"] = ma.masked_where(bad, nan_masked(stack(recs, "Z")))
        e["v"] = ma.masked_where(bad, nan_masked(stack(recs, "v")))
        for k in ("pitch", "yaw", "roll"):
            e[f"radar_{k}"] = np.array([r[k[0]] for r in recs])
        e["nyquist_velocity"] = self.nyq
        e["zenith_angle"] = 90 - self.elev
        if self.has_gps:
            self.gps_expected(e, recs)
        else:
            e["latitude"], e["longitude"] = self.site["latitude"], self.site["longitude"]
        e["altitude"] = self.site["altitude"]
        return e


class Bowtie(NcFmt):
    subsec = True
    name = "bowtie"

    def setup(self, rng):
        super().setup(rng)
        self.nc = int(pick(rng, 2, 3))
        self.moving = bool(rng.random() < .5)
        self.nyq = np.round(rng.uniform(4, 10, self.nc), 3)
        self.off = np.sort(rng.integers(0, self.n + 1, self.nc))

    def values(self, rng):
        n = self.n
        r = {"Zh": profile(rng, n, -50, 20), "width": profile(rng, n, 0, 3), "ldr": profile(rng, n, -40, -5), "v": profile(rng, n, -6, 4),
             "kurt": profile(rng, n, 0, 6), "Skew": profile(rng, n, -1, 1), "SNR": profile(rng, n, -5, 40)}
        r["lwp"] = round(float(rng.uniform(-20, 900)), 2)
        r["rh"] = round(float(rng.uniform(20, 100)), 2)
        r["rain"] = round(float(rng.uniform(0, 30)), 3)
        r.update(self.gps_values(rng))
        return r

    def write(self, path, recs):
        day = recs[0]["t"].date()
        T, R, C = ("time",), ("time", "range"), ("chirp",)
        nan = np.nan
        v = [("time", "f8", T, [secs(r["t"], datetime.datetime(2020, 1, 1)) for r in recs], {"units": "seconds since 2020-01-01T00:00:00+00:00"}, -999.0),
             ("range", "f4", ("range",), self.range, {"units": "m"}, -999.0), ("altitude", "f4", (), 16.0, {"units": "m"}, nan),
             ("latitude", "f4", T, [r["lat"] for r in recs], {}, nan), ("longitude", "f4", T, [r["lon"] for r in recs], {}, nan),
             ("Nyquist_velocity", "f4", C, self.nyq, {}, nan), ("range_offsets", "f8", C, self.off, {}, nan),
             ("lwp", "f4", T, [r["lwp"] for r in recs], {"units": "g m-2"}, nan), ("rain", "f4", T, [r["rain"] for r in recs], {"units": "mm h-1"}, nan),
             ("SurfRelHum", "f4", T, [r["rh"] for r in recs], {"units": "%"}, nan)]
        v += [(k, "f4", R, stack(recs, k), {}, nan) for k in ("Zh", "width", "ldr", "v", "kurt", "Skew", "SNR")]
        write_nc(path, {"time": len(recs), "range": self.n, "chirp": self.nc}, v, {"year": str(day.year), "month": str(day.month), "day": str(day.day)})

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import bowtie2nc
        return bowtie2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def expected(self, recs):
        e = self.common(recs)
        for k, o in (("Zh", "Zh"), ("width", "width"), ("ldr", "ldr"), ("v", "v"), ("kurt", "kurtosis"), ("Skew", "skewness"), ("SNR", "SNR")):
            e[o] = nan_masked(stack(recs, k))
        e["lwp"] = np.array([r["lwp"] / 1000 for r in recs])
        e["rainfall_rate"] = np.array([r["rain"] / 3600 / 1000 for r in recs])
        e["relative_humidity"] = np.array([r["rh"] / 100 for r in recs])
        e["correction_bits"] = ma.masked_where(ma.getmaskarray(e["v"]), np.ones(e["v"].shape))
        e["nyquist_velocity"] = np.tile(self.nyq, (len(recs), 1))
        e["chirp_start_indices"] = np.tile(self.off, (len(recs), 1))
        self.gps_expected(e, recs)
        e["altitude"] = self.site["altitude"]
        return e


def stable(el, az, el_lim, el_diff, az_diff):
    """profiles with a constant, vertical direction (reference of the documented filter)"""
    ok = np.abs(el - 90) < el_lim
    prev = np.concatenate([[el[1]], el[:-1]])
    ok &= np.abs(el - prev) < el_diff
    if az is not None:
        d = az - np.concatenate([[az[1]], az[:-1]])
        d = (d + 180) % 360 - 180
        ok &= np.abs(d) < az_diff
    return ok


class Copernicus(NcFmt):
    subsec = True
    name = "copernicus"
    multi = True
    el_diff, az_diff = .5, .1
    base_offset = -149.5

    def setup(self, rng):
        self.range_offset = pick(rng, None, None, -100.0, 0.0)
        self.applied_range = pick(rng, None, 20.0)
        self.applied_z = pick(rng, 0.0, -162.0)
        self.zoff = pick(rng, None, None, -146.8)
        self.fold = round(float(rng.uniform(4, 12)), 3)
        self.az = float(pick(rng, 0.0, 150.0, 359.97))
        self.el0 = float(pick(rng, 90.0, 90.13, 89.5))
        self.scan = rng.random() < .3
        if self.range_offset is not None:
            self.site["range_offset"] = self.range_offset
        if self.zoff is not None:
            self.site["Zh_offset"] = self.zoff
        step = float(int(rng.integers(10, 60)))
        off = -720 if self.range_offset is None else self.range_offset
        start = -off + pick(rng, 30.0, 30.0, -2.5 * step) + (self.applied_range or 0)
        self.range = np.arange(self.n) * step + start
        if rng.random() < .3:  # first gates below 150 m
            self.range = np.arange(self.n) * step + 10.0
        if not np.any(self.final_range() >= 0):
            self.range = np.arange(self.n) * step + 800.0

    def final_range(self):
        return self.range - (self.applied_range or 0) + (-720 if self.range_offset is None else self.range_offset)

    def out_range(self):
        r = self.final_range()
        return r[r >= 0]

    def values(self, rng):
        n = self.n
        r = {"Z": profile(rng, n, 100, 170, .1, 2), "v": profile(rng, n, -7, 5, .1), "w": profile(rng, n, 0, 2.5, .1), "l": profile(rng, n, -40, 3, .3), "s": np.round(rng.uniform(-2, 30, n), 2)}
        bad = rng.random(n) < .1
        r["v"][bad & (rng.random(n) < .5)] = 9.7
        r["w"][bad & (rng.random(n) < .5)] = 3.5
        m = np.isnan(r["Z"])
        for k in ("v", "w"):
            r[k][m | np.isnan(r["w"])] = np.nan
        r["el"] = self.el0 + (float(pick(rng, 2.0, -30.0, .8)) if self.scan and rng.random() < .2 else 0.0)
        r["az"] = (self.az + float(rng.uniform(0, .05))) % 360
        return r

    def write(self, path, recs):
        day = recs[0]["t"].date()
        T, R = ("time",), ("time", "range")
        ra = {"units": "m"}
        if self.applied_range is not None:
            ra["range_offset"] = self.applied_range
        v = [("antenna_diameter", "f4", (), 2.4, {"units": "m"}, None), ("beamwidthV", "f4", (), .25, {}, None), ("beamwidthH", "f4", (), .25, {}, None),
             ("height", "f4", (), 86.0, {"units": "m"}, None), ("longitude", "f4", (), 358.5, {}, None), ("latitude", "f4", (), 51.1, {}, None),
             ("range", "f4", ("range",), self.range, ra, None),
             ("time", "f8", T, [secs(r["t"], midnight(day)) for r in recs], {"units": f"seconds since {day} 00:00:00 +00:00"}, None),
             ("elevation", "f4", T, [r["el"] for r in recs], {}, None), ("azimuth", "f4", T, [r["az"] for r in recs], {}, None)]
        for k, o, a in self.fields():
            at = {"units": "dB"}
            if k == "VEL_HC":
                at["folding_velocity"] = np.float32(self.fold)
            if k == "ZED_HC":
                at["applied_calibration_offset"] = np.float32(self.applied_z)
            v.append((k, "f4", R, np.where(np.isnan(stack(recs, o)), -999., stack(recs, o)), at | {"missing_value": np.float32(-999)}, -999.))
        write_nc(path, {"time": None, "range": self.n}, v, {"year": str(day.year), "month": str(day.month), "day": str(day.day)}, fmt="NETCDF3_CLASSIC")

    def fields(self):
        return [("ZED_HC", "Z", ""), ("VEL_HC", "v", ""), ("SPW_HC", "w", ""), ("LDR_C", "l", ""), ("SNR_HC", "s", "")]

    def arg(self, d, files):
        return files[0] if len(files) == 1 and self.rng.random() < .5 else d

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import copernicus2nc
        return copernicus2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def ok(self, recs):
        el = np.array([np.float32(r["el"]) for r in recs], float)
        az = np.array([np.float32(r["az"]) for r in recs], float)
        return stable(el, az, 1.1, self.el_diff, self.az_diff)

    def kept(self, recs):
        if len(recs) < 2:
            return []
        k = [r for r, o in zip(recs, self.ok(recs)) if o]
        return k if len(k) >= 2 else []

    def zenith(self, recs):
        return 90 - float(np.median([r["el"] for r in recs]))

    def expected(self, recs):
        e = self.common(recs)
        Z, v, w, l, s = (nan_masked(stack(recs, k)) for k in "Zvwls")
        top = ma.mean(s[:, -50:], axis=1)
        zoff = self.base_offset if self.zoff is None else self.zoff
        Z = Z - np.float32(self.applied_z) + zoff
        Z = ma.masked_where((s < top[:, None] + 2).filled(False), Z)
        v = ma.masked_where((np.abs(v).filled(0) > 9) | (w.filled(0) > 3) | (self.range < 150)[None, :], v)
        m = ma.getmaskarray(Z) | ma.getmaskarray(v)
        g = self.final_range() >= 0
        for name, a in (("Zh", Z), ("v", v), ("width", w), ("ldr", l), ("SNR", s)):
            e[name] = ma.masked_where(m, a)[:, g]
        e["nyquist_velocity"] = self.fold
        e["zenith_angle"] = np.array([90 - r["el"] for r in recs])
        e["azimuth_angle"] = np.array([r["az"] for r in recs])
        e["latitude"], e["longitude"], e["altitude"] = self.site["latitude"], self.site["longitude"], self.site["altitude"]
        e["Zh_offset"] = zoff
        e["range_offset"] = -720 if self.range_offset is None else self.range_offset
        return e

    def close_call(self, recs):
        """values so near a screening limit that rounding decides"""
        s = stack(recs, "s").astype(np.float32).astype(float)
        top = np.mean(s[:, -50:], axis=1)
        return bool(np.any(np.abs(s - top[:, None] - 2) < 1e-4))


class Galileo(Copernicus):
    name = "galileo"
    el_diff = .1

    def setup(self, rng):
        self.snr_limit = pick(rng, None, None, 0.0, 6.0)
        if self.snr_limit is not None:
            self.site["snr_limit"] = self.snr_limit
        self.applied_range, self.applied_z = pick(rng, None, -389.73), -162.0
        self.fold = round(float(rng.uniform(4, 12)), 3)
        self.az = float(pick(rng, 0.0, 60.0, 359.97))
        self.el0 = float(pick(rng, 90.0, 89.5))
        self.scan = rng.random() < .3
        step = float(int(rng.integers(30, 60)))
        self.range = np.arange(self.n) * step + pick(rng, -1.5 * step, 0.0, 30.0)

    def final_range(self):
        return self.range

    def out_range(self):
        return self.range[self.range > 0]

    def values(self, rng):
        r = super().values(rng)
        n = self.n
        r["Z"] = profile(rng, n, -40, 20, .1, 2)
        r["l"] = profile(rng, n, -40, 3, .2, 2)
        r["s"] = np.round(rng.uniform(-5, 30, n), 2)
        m = np.isnan(r["Z"])
        for k in ("v", "w"):
            r[k][m] = np.nan
        return r

    def fields(self):
        return [("ZED_HC", "Z", ""), ("VEL_HC", "v", ""), ("SPW_HC", "w", ""), ("LDR_HC", "l", ""), ("SNR_HC", "s", "")]

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import galileo2nc
        return galileo2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def expected(self, recs):
        e = self.common(recs)
        g = self.range > 0
        Z, v, w, l, s = (nan_masked(stack(recs, k))[:, g] for k in "Zvwls")
        low = (s < (3 if self.snr_limit is None else self.snr_limit)).filled(False)
        Z, v, w, l, s = (ma.masked_where(low, a) for a in (Z, v, w, l, s))
        gate = np.arange(Z.shape[1])[None, :] < 15
        clutter = gate & (Z < -15).filled(False) & (l > -5).filled(False)
        v = ma.masked_where(clutter, v)
        m = ma.getmaskarray(Z) | ma.getmaskarray(v)
        for name, a in (("Zh", Z), ("v", v), ("width", w), ("ldr", l), ("SNR", s)):
            e[name] = ma.masked_where(m, a)
        e["nyquist_velocity"] = self.fold
        e["zenith_angle"] = np.array([90 - r["el"] for r in recs])
        e["azimuth_angle"] = np.array([r["az"] for r in recs])
        e["latitude"], e["longitude"], e["altitude"] = self.site["latitude"], self.site["longitude"], self.site["altitude"]
        return e

    def close_call(self, recs):
        return False


class Mira(NcFmt):
    name = "mira"
    multi = True
    days = True
    ext = ".mmclx"
    el_diff, az_diff = 1e-6, 1e-3

    def setup(self, rng):
        super().setup(rng)
        self.ext = str(pick(rng, ".mmclx", ".mmclx", ".znc"))
        self.znew = self.ext == ".znc" and rng.random() < .5
        self.znames = ("Zh2l", "VELh2l", "RMSh2l", "LDRh2l", "SNRh2l") if self.znew else ("Zg", "VELg", "RMSg", "LDRg", "SNRg")
        self.model = pick(rng, None, "mira-35", "mira-35c", "mira-10")
        if self.model:
            self.site["model"] = self.model
        self.snr_limit = pick(rng, None, None, -10.0)
        if self.snr_limit is not None:
            self.site["snr_limit"] = self.snr_limit
        self.zoff = pick(rng, None, None, .3)
        if self.zoff is not None:
            self.site["zenith_offset"] = self.zoff
        self.aoff = pick(rng, None, None, 5.0)
        if self.aoff is not None:
            self.site["azimuth_offset"] = self.aoff
        self.angles = rng.random() < .8
        self.fzk = bool(rng.random() < .2)
        self.nyq = round(float(rng.uniform(5, 12)), 3)
        self.pol = str(pick(rng, "1", "1", "0"))
        self.stsr = rng.random() < .15
        self.tpow = rng.random() < .8
        self.el0 = float(pick(rng, 90.0, 90.0, 89.6))
        self.az = float(pick(rng, 0.0, 120.0))
        self.scan = rng.random() < .3
        self.freq = 35.1e9

    def values(self, rng):
        n = self.n
        r = {"Z": 10 ** (profile(rng, n, -50, 20, .1) / 10), "v": profile(rng, n, -7, 5, .1), "w": profile(rng, n, 0, 2.5, .1),
             "l": 10 ** (profile(rng, n, *((2, 6) if self.stsr else (-40, -5)), .3) / 10), "s": 10 ** (profile(rng, n, -30, 30, .05) / 10)}
        m = np.isnan(r["Z"])
        for k in ("v", "w", "l", "s"):
            r[k][m & (rng.random(n) < .8)] = np.nan
        r["el"] = self.el0 + (float(pick(rng, 2.0, -30.0)) if self.scan and rng.random() < .2 else 0.0)
        r["az"] = self.az
        # in raw units of the file
        low = .4 if self.model == "mira-35c" else 4.0
        r["tp"] = round(float(rng.uniform(.02, low) if rng.random() < .1 else rng.uniform(low * 1.5, 25)), 3)
        return r

    def write(self, path, recs):
        T, R = ("time",), ("time", "range")
        v = [(k, "i4", (), x, {"units": "count"}, None) for k, x in (("nfft", 256), ("prf", 5000), ("nave", 200), ("rg0", 5))]
        v += [("NyquistVelocity", "f4", (), self.nyq, {"units": "m s-1"}, None), ("range", "f4", ("range",), self.range, {"units": "m"}, None),
              ("time", "i4", T, [int(secs(r["t"], E1970)) for r in recs], {"units": "Seconds"}, None)]
        if self.tpow:
            v.append(("tpow", "f4", T, [r["tp"] / (100 if self.fzk else 1) for r in recs], {"units": "W"}, None))
        if self.angles:
            v += [("elv", "f4", T, [r["el"] for r in recs], {}, None), ("azi", "f4", T, [r["az"] for r in recs], {}, None)]
        for k, o in zip(self.znames, "Zvwls"):
            v.append((k, "f4", R, stack(recs, o), {"units": ""}, None))
        if self.znew:
            for k in ("Zg", "VELg", "RMSg", "LDRg", "SNRg"):
                v.append((k, "f4", R, np.full((len(recs), self.n), 1.5), {}, None))
        elif self.ext == ".mmclx":
            v.append(("Ze", "f4", R, np.full((len(recs), self.n), 1.5), {}, None))
        hrd = f"NAME:x\nSN:{'fzk' if self.fzk else 'mbr5'}\nPOL:           {self.pol}\nXMT:   {self.freq}\n"
        write_nc(path, {"time": None, "range": self.n}, v, {"hrd": hrd, "location": "x", "Altitude": "921m", "Latitude": "47.07S", "Longitude": "7.8W"}, fmt=pick(self.rng, "NETCDF3_CLASSIC", "NETCDF4"))

    def arg(self, d, files):
        if len(files) == 1 and self.rng.random() < .5:
            return files[0]
        return d if self.rng.random() < .5 else list(files)

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import mira2nc
        return mira2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def powered(self, recs):
        if not self.tpow:
            return recs
        lim = .5 if self.model == "mira-35c" else 5
        return [r for r in recs if r["tp"] >= lim]

    def kept(self, recs):
        recs = self.powered(recs)
        if len(recs) < 2:
            return []
        if not self.angles:
            return recs
        el = np.array([np.float32(np.float32(r["el"]) - np.float32(self.zoff or 0)) for r in recs], float)
        k = [r for r, o in zip(recs, stable(el, None, 1.1, self.el_diff, 0)) if o]
        return k if len(k) >= 2 else []

    def zenith(self, recs):
        return 90 - (self.el0 - (self.zoff or 0)) if self.angles else 0.0

    def expected(self, recs, all_recs=None):
        e = self.common(recs)
        Z, v, w, l, s = (nan_masked(stack(recs, k)) for k in "Zvwls")
        Z, l, s = (10 * ma.log10(a) for a in (Z, l, s))
        lim = self.snr_limit if self.snr_limit is not None else (-30 if self.model == "mira-10" else -17)
        low = (s < lim).filled(False)
        Z, v, w, l, s = (ma.masked_where(low, a) for a in (Z, v, w, l, s))
        if self.stsr:
            l = ma.masked_all(l.shape)
        m = ma.getmaskarray(Z) | ma.getmaskarray(v)
        for name, a in (("Zh", Z), ("v", v), ("width", w), ("ldr", l), ("SNR", s)):
            e[name] = ma.masked_where(m, a)
        if self.pol == "0":
            del e["ldr"]
        e["nyquist_velocity"] = self.nyq
        e["radar_frequency"] = self.freq / 1e9
        if self.angles:
            e["zenith_angle"] = np.full(len(recs), 90 - (self.el0 - (self.zoff or 0)))
            e["azimuth_angle"] = np.full(len(recs), self.az + (self.aoff or 0))
        e["nfft"], e["prf"], e["nave"], e["rg0"] = 256, 5000, 200, 5
        if self.tpow:
            e["tpow"] = np.array([r["tp"] for r in recs])
        e["latitude"], e["longitude"], e["altitude"] = self.site["latitude"], self.site["longitude"], self.site["altitude"]
        return e


class Mrr(NcFmt):
    subsec = True
    name = "mrr"
    multi = True
    days = True
    min_records = 1

    def setup(self, rng):
        super().setup(rng)
        self.el0 = float(pick(rng, 90.0, 90.0, 88.0))

    def out_range(self):
        return self.range - self.range[0]

    def values(self, rng):
        n = self.n
        return {"RR": profile(rng, n, 0, 60), "WIDTH": profile(rng, n, 0, 4), "VEL": profile(rng, n, -2, 11), "LWC": profile(rng, n, 0, 5), "Ze": profile(rng, n, -20, 50), "PIA": profile(rng, n, 0, 10)}

    def write(self, path, recs):
        T, R = ("time",), ("time", "range")
        v = [("time", "f8", T, [secs(r["t"], E1970) for r in recs], {"units": "seconds since 1970-01-01T00:00:00Z"}, None),
             ("range", "f4", ("range",), self.range, {"units": "meters"}, None), ("elevation", "f4", T, [self.el0] * len(recs), {"units": "degrees"}, None)]
        v += [(k, "f4", (), 0.0, {"units": u}, 0.0) for k, u in (("latitude", ""), ("longitude", ""), ("altitude", "meters"))]
        v += [(k, "f4" if k == "VEL" else "f8", R, stack(recs, k), {}, np.nan) for k in ("RR", "WIDTH", "VEL", "LWC", "Ze", "PIA")]
        write_nc(path, {"time": None, "range": self.n}, v, {"instrument_name": "METEK MRR Pro 1.1.23, ID: MRRPro27, METEK Serial Number:  0511107367, Software:  MRR Pro"})

    def arg(self, d, files):
        if len(files) == 1 and self.rng.random() < .5:
            return files[0]
        return d if self.rng.random() < .5 else list(files)

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import mrr2nc
        return mrr2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def zenith(self, recs):
        return 90 - self.el0

    def expected(self, recs):
        e = self.common(recs)
        for k, o, f in (("RR", "rainfall_rate", 1 / 3.6e6), ("WIDTH", "width", 1), ("VEL", "v", -1), ("LWC", "lwc", 1e-3), ("Ze", "Zh", 1), ("PIA", "pia", 1)):
            e[o] = nan_masked(stack(recs, k)) * f
        e["zenith_angle"] = np.full(len(recs), 90 - self.el0)
        e["latitude"], e["longitude"], e["altitude"] = self.site["latitude"], self.site["longitude"], self.site["altitude"]
        return e


class Opera(NcFmt):
    """vertically pointing weather radar, OPERA HDF5"""
    name = "opera"
    multi = True
    days = True
    min_records = 1
    one_per_file = True
    Q = {"SNR": (-10, 60), "VRADH": (-7, -1.2), "WRADH": (0, 4), "ZDR": (-2, 4), "RHOHV": (.5, 1)}

    def setup(self, rng):
        self.rscale = float(pick(rng, 50.0, 125.0))
        self.rstart = float(pick(rng, 0.0, .3))
        self.nez = round(float(rng.uniform(-60, -40)), 2)
        self.ni = round(float(rng.uniform(8, 30)), 2)
        self.wl = 5.3
        self.nray = int(pick(rng, 1, 3))
        # scans of the day may have different gates, those of the longest range are used
        self.grids = [self.rstart * 1000 + self.rscale / 2 + self.rscale * np.arange(self.n)]
        if rng.random() < .4:
            m, sc = int(rng.integers(2, max(3, self.n))), float(pick(rng, 50.0, 75.0, 125.0, 200.0))
            self.grids.append(self.rstart * 1000 + sc / 2 + sc * np.arange(m))
            if self.grids[0][-1] == self.grids[1][-1]:
                self.grids.pop()
        self.scales = [self.rscale, *([sc] if len(self.grids) == 2 else [])]
        self.used = set()
        if rng.random() < .5:
            self.Q = dict(self.Q, VRADH=(-4, 1))  # clutter is possible

    def values(self, rng):
        r = {}
        for k, (lo, hi) in self.Q.items():
            q = rng.integers(2, 250, (self.nray, self.n))
            q[rng.random(q.shape) < .15] = int(pick(rng, 0, 255))
            r[k] = q
        if rng.random() < .3:
            r["SNR"][:, rng.random(self.n) < .5] = 3  # noise
        r["grid"] = int(rng.integers(len(self.grids)))
        m = self.grids[r["grid"]].size
        for k in self.Q:
            r[k] = np.resize(r[k], (self.nray, m))
        return r

    @property
    def range(self):
        g = [self.grids[i] for i in sorted(self.used or {0})]
        return max(g, key=lambda x: x[-1])

    @range.setter
    def range(self, x):
        pass

    def gain(self, k):
        lo, hi = self.Q[k]
        return (hi - lo) / 250, lo - 2 * (hi - lo) / 250

    def write(self, path, recs):
        (r,) = recs
        with netCDF4.Dataset(path, "w") as nc:
            w = nc.createGroup("what")
            w.date, w.time = r["t"].strftime("%Y%m%d"), r["t"].strftime("%H%M%S")
            nc.createGroup("how").wavelength = self.wl
            d = nc.createGroup("dataset1")
            wh = d.createGroup("where")
            self.used.add(r["grid"])
            wh.nbins, wh.rstart, wh.rscale = np.int64(self.grids[r["grid"]].size), self.rstart, self.scales[r["grid"]]
            h = d.createGroup("how")
            h.NEZH, h.NI = self.nez, self.ni
            for i, k in enumerate(self.Q):
                g = d.createGroup(f"data{i + 1}")
                gain, off = self.gain(k)
                gw = g.createGroup("what")
                gw.quantity, gw.gain, gw.offset, gw.nodata, gw.undetect = k, gain, off, 255.0, 0.0
                g.createDimension("x", self.nray)
                g.createDimension("y", self.grids[r["grid"]].size)
                g.createVariable("data", "u1", ("x", "y"))[:] = r[k]

    def arg(self, d, files):
        return files

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments.weather_radar import wr2nc
        return wr2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def expected(self, recs):
        e = self.common(recs)
        a = {}
        for k in (*self.Q, "Z"):
            rows = []
            for r in recs:
                own = self.grids[r["grid"]]
                gain, off = self.gain("SNR" if k == "Z" else k)
                q = r["SNR" if k == "Z" else k].astype(float)
                x = ma.masked_where((q == 0) | (q == 255), off + gain * q)
                if k in ("SNR", "ZDR", "Z"):
                    x = 10 ** (x / 10)
                x = ma.mean(x, axis=0)
                if k in ("SNR", "ZDR", "Z"):
                    x = 10 * ma.log10(x)
                if k == "Z":
                    x = x + self.nez + 20 * np.log10(own / 1000)
                near = np.abs(own[None, :] - self.range[:, None]).argmin(1)
                rows.append(ma.masked_where((self.range < own[0]) | (self.range > own[-1]), x[near]))
            a[k] = ma.array(rows)
        # clutter of the lowest ten gates
        z = ma.masked_where((a["VRADH"] < -1).filled(True), a["Z"])[:, :10]
        mz = ma.mean(z, axis=0)
        hit = np.nonzero((mz > -10).filled(False))[0]
        bad = (a["SNR"] < 0).filled(False)
        if len(hit):
            bad[:, :hit[-1] + 1] = True
        for k, o in (("SNR", "SNR"), ("Z", "Zh"), ("VRADH", "v"), ("WRADH", "width"), ("ZDR", "zdr"), ("RHOHV", "rho_hv")):
            e[o] = ma.masked_where(bad, a[k])
        e["radar_frequency"] = 3e8 / (self.wl / 100) / 1e9
        e["nyquist_velocity"], e["calibration_reflectivity_factor"] = self.ni, self.nez
        e["latitude"], e["longitude"], e["altitude"] = self.site["latitude"], self.site["longitude"], self.site["altitude"]
        return e


# ---------------------------------------------------------------- lidars

class Lidar(NcFmt):
    days = True
    lo_gates, hi_gates = 20, 60
    lidar = True
    reference = "lower"
    cal_default = 1.0
    zkey = "tilt_angle"

    def setup(self, rng):
        step = float(pick(rng, 5.0, 10.0, 15.0, 30.0))
        self.raw_range = np.arange(self.n) * step + (0 if self.reference == "lower" else step)
        self.cal = pick(rng, None, None, 2.5, .7)
        if self.cal is not None:
            self.site["calibration_factor"] = self.cal * self.cal_default
        self.zen = float(pick(rng, 0.0, 3.0, 5.0))
        self.step = step
        self.scale = 1e-6

    fill = None

    def gaps(self, a):
        """missing values as NaN or as fill value"""
        return a if self.fill is None else np.where(np.isnan(a), self.fill, a)

    @property
    def factor(self):
        return self.cal_default if self.cal is None else self.site["calibration_factor"]

    def out_range(self):
        return self.raw_range + (self.step / 2 if self.reference == "lower" else -self.step / 2)

    def zenith(self, recs):
        return self.zen

    def beta(self, rng):
        """backscatter in the final units: noise, aerosol and a cloud"""
        z = self.out_range()
        noise = rng.normal(0, 2e-9, self.n) * (z / 1000 + .1) ** 2
        b = noise + 2e-6 * np.exp(-z / 500)
        if rng.random() < .5:
            k = int(rng.integers(0, self.n))
            b[k:k + 3] += 1e-4
        return b

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import ceilo2nc
        return ceilo2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def base(self, recs):
        e = self.common(recs)
        e["beta_raw"] = nan_masked(stack(recs, "b")) * self.factor
        e["calibration_factor"] = self.factor
        e["zenith_angle"] = self.zen
        for k in ("latitude", "longitude", "altitude"):
            e[k] = self.site[k]
        return e


class Chm15k(Lidar):
    subsec = True
    name = "chm15k"
    reference = "upper"
    cal_default = 3e-12
    zkey = "zenith"

    def setup(self, rng):
        super().setup(rng)
        self.old = rng.random() < .25
        self.chx = rng.random() < .3
        self.nn = float(pick(rng, 140.0, 150.0)) if self.old else 0

    @property
    def wavelength(self):
        return 1064.0

    def values(self, rng):
        b = self.beta(rng) / self.factor
        r = {"b": b, "sd": 1.0, "nn": self.nn}
        if self.old:
            r["sd"] = round(float(rng.uniform(.5, 2)), 3)
            r["nn"] = self.nn + int(rng.integers(-2, 3))
            r["b"] = b / self.out_range() ** 2 * 1.24 ** (-(r["nn"] - 140) / 5) / r["sd"]
        r["b"] = r["b"].astype(np.float32).astype(float)
        return r

    def write(self, path, recs):
        T, R = ("time",), ("time", "range")
        v = [("time", "f8", T, [secs(r["t"], datetime.datetime(1904, 1, 1)) for r in recs], {"units": "seconds since 1904-01-01 00:00:00.000 00:00"}, None),
             ("range", "f4", ("range",), self.raw_range, {"units": "m"}, None), ("zenith", "f4", T, [self.zen] * len(recs), {}, None),
             ("beta_raw", "f4", R, self.gaps(stack(recs, "b")), {}, self.fill)]
        a = {"title": "CHM15k Nimbus", "source": ("CHX" if self.chx else "CHM") + "150101", "software_version": "12.12.1 2.13 1.040 1"}
        if self.old:
            v += [("stddev", "f4", T, [r["sd"] for r in recs], {}, None), ("nn1", "i2", T, [r["nn"] for r in recs], {}, None)]
            a["software_version"] = pick(self.rng, "12.06.1 2.13 0.556", np.int32(311))
        write_nc(path, {"time": None, "range": self.n}, v, a)

    def expected(self, recs):
        e = self.base(recs)
        if self.old:
            f = np.array([r["sd"] / 1.24 ** (-(r["nn"] - 140) / 5) for r in recs])
            e["beta_raw"] = e["beta_raw"] * f[:, None] * self.out_range()[None, :] ** 2
        return e


class Cl61(Lidar):
    subsec = True
    name = "cl61"

    def values(self, rng):
        b = (self.beta(rng) / self.factor).astype(np.float32).astype(float)
        p = np.round(rng.uniform(.5, 2, self.n), 3)
        return {"b": b, "p": p, "x": np.round(p * rng.uniform(-.1, 1.2, self.n), 4)}

    def write(self, path, recs):
        T, R = ("time",), ("time", "range")
        v = [("time", "f8", T, [secs(r["t"], E1970) for r in recs], {"units": "seconds since 1970-01-01 00:00:00.000"}, None),
             ("range", "f4", ("range",), self.raw_range, {"units": "m"}, None), (self.zkey, "f4", T, [self.zen] * len(recs), {}, None),
             ("beta_att", "f4", R, self.gaps(stack(recs, "b")), {}, self.fill), ("p_pol", "f4", R, stack(recs, "p"), {}, None), ("x_pol", "f4", R, stack(recs, "x"), {}, None)]
        write_nc(path, {"time": None, "range": self.n}, v, {"title": "Vaisala CL61-D", "instrument_serial_number": "S123"})

    def expected(self, recs):
        e = self.base(recs)
        e["depolarisation_raw"] = stack(recs, "x") / stack(recs, "p")
        return e


class Da10(Cl61):
    name = "da10"

    def setup(self, rng):
        super().setup(rng)
        self.site["model"] = "da10"

    def write(self, path, recs):
        super().write(path, recs)

    def expected(self, recs):
        return self.base(recs)


class Polly(Lidar):
    subsec = True
    name = "pollyxt"
    multi = True

    def setup(self, rng):
        super().setup(rng)
        self.site.pop("calibration_factor", None)
        self.cal = None
        self.raw_range = np.arange(self.n) * self.step + self.step
        self.chan = str(pick(rng, "1064", "1064", "532"))
        self.snr_limit = pick(rng, None, None, 5.0)
        if self.snr_limit is not None:
            self.site["snr_limit"] = self.snr_limit
        self.zen = 5.0

    def out_range(self):
        return self.raw_range

    def values(self, rng):
        b = self.beta(rng).astype(np.float32).astype(float)
        b[rng.random(self.n) < .05] = np.nan
        if rng.random() < .05:
            b[:] = np.nan
        r = {"b": b, "d": profile(rng, self.n, -.2, 1.3, .05, 3), "s": np.round(rng.uniform(-3, 12, self.n), 2)}
        return r

    def write(self, path, recs):
        T, R = ("time",), ("time", "height")
        tm = [("time", "f8", T, [secs(r["t"], E1970) for r in recs], {"unit": "seconds since 1970-01-01 00:00:00"}, None), ("height", "f4", ("height",), self.raw_range, {"unit": "m"}, None)]
        v = list(tm)
        for c in ("1064", "532", "355"):
            x = np.nan_to_num(stack(recs, "b"), nan=-999.) if c == self.chan else np.zeros((len(recs), self.n))
            v.append((f"attenuated_backscatter_{c}nm", "f4", R, x, {"Lidar_calibration_constant_used": np.float32(self.calib(recs))}, -999.))
            v.append((f"SNR_{c}nm", "f4", R, stack(recs, "s"), {}, -999.))
        write_nc(path, {"time": len(recs), "height": self.n}, v, {"source": "PollyXT_TROPOS"})
        w = tm + [("volume_depolarization_ratio_532nm", "f4", R, np.nan_to_num(stack(recs, "d"), nan=-999.), {}, -999.)]
        write_nc(path.replace("_att_bsc", "_vol_depol"), {"time": len(recs), "height": self.n}, w, {})

    def kept(self, recs):
        """completely masked profiles are dropped"""
        return [r for r in recs if not np.all(np.isnan(r["b"]))]

    def calib(self, recs):
        return 3.5e13

    def filename(self, i, recs):
        return f"2025_{i:02d}_00_00_01_att_bsc"

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import pollyxt2nc
        return pollyxt2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def expected(self, recs):
        e = self.base(recs)
        e["beta_raw"] = b = nan_masked(stack(recs, "b"))
        e["depolarisation_raw"] = d = nan_masked(stack(recs, "d"))
        lim = 2 if self.snr_limit is None else self.snr_limit
        low = stack(recs, "s") < lim
        e["beta"] = ma.masked_where(low | (b < 0).filled(False), b)
        e["depolarisation"] = ma.masked_where(low | (d < 0).filled(False) | (d > 1).filled(False), d)
        e["calibration_factor"] = np.full(len(recs), 3.5e13)
        e["wavelength"] = float(self.chan)
        return e

    def arg(self, d, files):
        if self.rng.random() < .5:
            return d
        both = [*files, *(f.replace("_att_bsc", "_vol_depol") for f in files)]
        return [both[i] for i in self.rng.permutation(len(both))]


ALL = {c.name: c for c in (Basta, Bowtie, Copernicus, Galileo, Mira, Mrr, Opera, Chm15k, Cl61, Da10, Polly)}


def compare(obs, fmt, nc, recs, pre="", rtol=3e-6, only=None):
    """recs: sorted unique records the file must hold"""
    e = fmt.expected(recs)
    for k, x in e.items():
        if only and k not in only:
            continue
        if k not in nc["vars"]:
            obs.bad(f"{pre}missing-variable:{k}", f"{fmt.name}: {k} is not in the file")
            continue
        g = ma.asarray(nc["vars"][k])
        x = ma.asarray(x, dtype=float)
        if x.ndim == 0 and g.ndim > 0:
            x = ma.array(np.broadcast_to(x, g.shape), mask=np.broadcast_to(ma.getmaskarray(x), g.shape))
        obs.n("values", int(x.size))
        if g.shape != x.shape:
            if k == "time":
                obs.bad(f"{pre}time-length", f"{fmt.name}: {g.shape[0]} timestamps in file, expected {x.shape[0]}: {list(np.round(g, 4))[:8]} vs {list(np.round(x, 4))[:8]}")
                return False
            obs.bad(f"{pre}shape:{k}", f"{fmt.name}: {k} has shape {g.shape}, expected {x.shape}")
            continue
        gm, xm = ma.getmaskarray(g), ma.getmaskarray(x)
        gf, xf = np.asarray(g.filled(0), float), np.asarray(x.filled(0), float)
        scale = np.max(np.abs(xf)) if xf.size else 0
        tol = rtol * np.abs(xf) + (rtol * scale * .1 if k not in ("time",) else 0) + 1e-30
        if k == "time":
            tol = np.full(xf.shape, 3e-6)
        elif k in ("Zh", "ldr", "SNR", "zdr", "zenith_angle", "azimuth_angle") and k not in getattr(fmt, "tol", {}):
            tol = tol + 2e-4
        elif k in getattr(fmt, "tol", {}):
            tol = tol + fmt.tol[k]
        elif k == "radar_frequency":
            tol = tol + .01
        dmask = gm != xm
        dval = ~gm & ~xm & ~(np.abs(gf - xf) <= tol)
        if dmask.any():
            i = tuple(int(j) for j in np.argwhere(dmask)[0])
            obs.bad(f"{pre}missing:{k}", f"{fmt.name}: {k}{list(i)} {'missing' if gm[i] else 'present'} in the file, raw {'missing' if xm[i] else repr(float(xf[i]))} ({int(dmask.sum())} of {gm.size} differ)")
        if dval.any():
            i = tuple(int(j) for j in np.argwhere(dval)[0])
            obs.bad(f"{pre}value:{k}", f"{fmt.name}: {k}{list(i)} = {gf[i]!r}, expected {xf[i]!r} ({int(dval.sum())} of {gm.size} differ)")
    return True


def unique_day(recs, day=None):
    """-> (candidates per distinct time of the day)"""
    rows = {}
    for r in recs:
        if day is None or r["t"].date() == day:
            rows.setdefault(r["t"], []).append(r)
    return [(t, rows[t]) for t in sorted(rows)]
