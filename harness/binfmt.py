"""Raw binary and message-based instrument formats (HATPRO, RPG cloud radar, Vaisala and Campbell
ceilometers, Radiometrics radiometers): generators with ground truth; same interface as ncfmt."""
import binascii
import contextlib
import datetime

import numpy as np
from numpy import ma

from harness.ncfmt import E2001, Lidar, NcFmt, nan_masked, pick, profile, secs, stack


# ---------------------------------------------------------------- HATPRO
class Hatpro(NcFmt):
    name = "hatpro"
    multi = True
    days = True
    min_records = 1
    lo_gates, hi_gates = 3, 4

    def setup(self, rng):
        super().setup(rng)
        self.version = int(pick(rng, 1, 2))
        self.tol = {"zenith_angle": .04} if self.version == 1 else {}
        self.with_iwv = rng.random() < .7
        self.lower = bool(rng.random() < .3)
        self.itype = str(pick(rng, "hatpro", "lhatpro", "lhumpro_u90"))
        self.scan = rng.random() < .3
        self.without_iwv = int(pick(rng, -1, -1, 0, 1))  # number of the file without the second quantity

    def values(self, rng):
        z = round(float(rng.uniform(0, 70)), 1) if self.scan and rng.random() < .4 else 0.0
        low = rng.random() < .06
        r = {"lwp": np.float32(rng.uniform(-30, 900)), "iwv": np.float32(rng.uniform(1, 60)) if self.with_iwv and rng.random() < .95 else None,
             "zen": z, "azi": round(float(rng.integers(0, 3600)) / 10, 1), "low": low, "flag": int(rng.integers(0, 2)) | (6 if low else int(pick(rng, 0, 2, 4)))}
        if self.with_iwv and r["iwv"] is not None and rng.random() < .05:
            r["lwp"] = None
        return r

    def angle(self, r):
        el = 90 - r["zen"]
        if self.version == 1:
            return np.float32(el + 1000 * r["azi"])
        return np.int32(round(el * 100) * 100000 + round(r["azi"] * 100))

    def regroup(self, parts):
        """a file in which everything is of low quality is documented to be ignored"""
        good = [p for p in parts if any(not r["low"] and r["lwp"] is not None for r in p) and (not any(r["iwv"] is not None for r in p) or any(not r["low"] and r["iwv"] is not None for r in p))]
        rest = [r for p in parts if not any(p is g for g in good) for r in p]
        if not good:
            return [rest]
        out = [good[0] + rest, *good[1:]] if rest else good
        ts = [r["t"] for p in out for r in p]
        i, self.without_iwv = self.without_iwv, -1
        if len(set(ts)) == len(ts) and 0 <= i < len(out) > 1:
            p = out[i]
            if all(r["lwp"] is not None for r in p):
                for r in p:
                    r["iwv"] = None
        return out

    def kept(self, recs):
        if all(r["lwp"] is None for r in recs):
            return []
        for k in ("lwp", "iwv"):
            have = [r for r in recs if r[k] is not None]
            if have and all(r["low"] for r in have):
                return []
        return [r for r in recs if r["lwp"] is not None or r["iwv"] is not None]

    def write_one(self, path, recs, key, codes):
        recs = [r for r in recs if r[key] is not None]
        if not recs:
            return
        dt = np.dtype([("t", "<i4"), ("f", "i1"), ("v", "<f4"), ("a", "<f4" if self.version == 1 else "<i4")])
        a = np.zeros(len(recs), dt)
        for i, r in enumerate(recs):
            a[i] = (int(secs(r["t"], E2001)), r["flag"], r[key], self.angle(r))
        with open(path, "wb") as f:
            f.write(np.array([codes[self.version - 1], len(recs)], "<i4").tobytes())
            f.write(np.array([a["v"].min(), a["v"].max()], "<f4").tobytes())
            f.write(np.array([1, 0], "<i4").tobytes())
            f.write(a.tobytes())

    def write(self, path, recs):
        stem = path[:-3]
        # instruments and sites differ in the case of the suffix
        low = str.lower if self.lower else str
        self.write_one(stem + low(".LWP"), recs, "lwp", (934501978, 934501000))
        if self.with_iwv:
            self.write_one(stem + low(".IWV"), recs, "iwv", (594811068, 594811000))
        open(stem + ".TXT", "w").write("other file\n")

    def filename(self, i, recs):
        return f"{i:02d}_data"

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import hatpro2nc
        return hatpro2nc(arg, out, dict(self.site), instrument_type=self.itype, uuid=uuid, date=date)

    def expected(self, recs):
        e = self.common(recs)
        del e["range"], e["height"]
        nan = float("nan")
        e["lwp"] = nan_masked([nan if r["lwp"] is None or r["low"] else float(r["lwp"]) / 1000 for r in recs])
        if self.with_iwv and any(r["iwv"] is not None for r in recs):
            e["iwv"] = nan_masked([nan if r["iwv"] is None or r["low"] else float(r["iwv"]) for r in recs])
        e["zenith_angle"] = np.array([r["zen"] for r in recs])
        for k in ("latitude", "longitude", "altitude"):
            e[k] = self.site[k]
        return e


def coefficients():
    import glob
    import os
    import mwrpy
    return sorted(glob.glob(os.path.dirname(mwrpy.__file__) + "/site_config/hyytiala/coefficients/[ILT]*.ret"))


FIXED = ("frequency", "receiver_nb", "receiver", "bandwidth", "n_sidebands", "sideband_IF_separation", "freq_shift", "ir_wavelength", "ir_bandwidth", "ir_beamwidth")


@contextlib.contextmanager
def time_variables_only():
    """mwrpy selects timestamps from every array whose length happens to be the number of timestamps: a
    defect of that library, kept out of the way so that it does not hide what cloudnetpy does"""
    from mwrpy.rpg_mwr import Rpg
    screen = Rpg._screen

    def wrapped(self, ind):
        aside = {k: v for k, v in self.data.items() if k in FIXED}
        for k in aside:
            del self.data[k]
        try:
            screen(self, ind)
        finally:
            self.data.update(aside)
    Rpg._screen = wrapped
    try:
        yield
    finally:
        Rpg._screen = screen


STATUS = sum(1 << b for b in (*range(15), 22, 23, 24, 26))


class HatproL1c(NcFmt):
    """level 1c of HATPRO: brightness temperatures, housekeeping, meteorology and infrared files through mwrpy"""
    name = "hatpro-l1c"
    multi = True
    days = True
    min_records = 2
    lo_gates, hi_gates = 3, 4
    gps = True
    nodate_error = ("RuntimeError", "ValidTimeStampError")
    F = (22.24, 23.04, 23.84, 25.44, 26.24, 27.84, 31.4, 51.26, 52.28, 53.86, 54.94, 56.66, 57.3, 58.0)
    TB = np.array([14, 14.5, 13.5, 12.5, 12, 11.8, 12, 105, 145, 245, 270, 276, 277, 277.5])

    def setup(self, rng):
        super().setup(rng)
        # far from the equator and looking up: never towards the sun or the moon
        self.site["latitude"] = round(float(rng.uniform(67, 84)), 4) * int(pick(rng, 1, -1))
        self.version = int(pick(rng, 1, 2))
        self.tol = {k: .04 for k in ("zenith_angle", "elevation_angle", "azimuth_angle", "ir_zenith_angle")} if self.version == 1 else {}
        self.irt = bool(rng.random() < .7)
        self.wind = int(rng.integers(0, 8))
        self.scan = rng.random() < .4
        self.any_low = False  # one missing value of the radiometer: mwrpy drops the whole variable
        self.lower = bool(rng.random() < .2)
        self.moving = rng.random() < .15
        self.with_gps = bool(rng.random() < .7)
        self.offset = datetime.timedelta(minutes=int(pick(rng, 120, -330, 60))) if rng.random() < .25 else None
        links = [f"https://example.org/coefficients/{x}.ret" for x in ("LWP_1", "SPC_1", "IWV_1")]
        self.site |= {"coefficientLinks": links[:int(rng.integers(1, 4))]}

    def values(self, rng):
        r = self.gps_values(rng)
        r["el"] = round(float(rng.uniform(68, 90)), 1) if self.scan and rng.random() < .4 else 90.0
        r["az"] = round(float(rng.integers(0, 3600)) / 10, 1)
        r["tb"] = (self.TB + np.round(rng.normal(0, .1, 14), 2)).astype("f4")
        r["m"] = {"p": np.float32(rng.integers(950, 1030)), "t": np.float32(rng.integers(250, 300)), "rh": np.float32(rng.integers(10, 100)), "ws": np.float32(rng.integers(0, 60)),
                  "wd": np.float32(rng.integers(0, 360)), "rr": np.float32(rng.integers(0, 20)), "ir": np.float32(rng.integers(-80, 20)), "ta": rng.integers(270, 290, 2), "low": rng.random() < .05}
        return r

    def raw_time(self, r):
        return int(secs(r["t"], E2001)) + (int(self.offset.total_seconds()) if self.offset else 0)

    def angle(self, el, az):
        if self.version == 1:
            return np.float32(el + 1000 * az)
        return np.int32(round(el * 100) * 100000 + round(az * 100))

    def write(self, path, recs):
        stem, n, ref = path[:-3], len(recs), 0 if self.offset else 1
        suffix = (lambda x: x.lower()) if self.lower else str
        i4, f4 = lambda *x: np.array(x, "<i4").tobytes(), lambda *x: np.array(x, "<f4").tobytes()
        at = "<f4" if self.version == 1 else "<i4"
        a = np.zeros(n, [("t", "<i4"), ("f", "i1"), ("tb", "<f4", 14), ("a", at)])
        h = np.zeros(n, [("t", "<i4"), ("al", "i1"), *([("lon", "<f4"), ("lat", "<f4")] if self.with_gps else []), ("temp", "<f4", 4), ("stab", "<f4", 2), ("status", "<i4")])
        add = [(k, "<f4") for b, k in ((1, "ws"), (2, "wd"), (4, "rr")) if self.wind & b]
        m = np.zeros(n, [("t", "<i4"), ("f", "i1"), ("p", "<f4"), ("ta", "<f4"), ("rh", "<f4"), *add])
        q = np.zeros(n, [("t", "<i4"), ("f", "i1"), ("ir", "<f4"), ("a", at)])
        for i, r in enumerate(recs):
            t, x = self.raw_time(r), r["m"]
            a[i] = (t, 0, r["tb"], self.angle(r["el"], r["az"]))
            h[i] = (t, 0, *((r["lon"], r["lat"]) if self.with_gps else ()), (*x["ta"], 318, 318), (.0005, .0005), STATUS)
            m[i] = (t, 0, x["p"], x["t"], x["rh"], *(x[k] for k, _ in add))
            q[i] = (t, 0, -150. if x["low"] else x["ir"], self.angle(85.5, r["az"]))
        with open(stem + suffix(".BRT"), "wb") as f:
            f.write(i4(666666 if self.version == 1 else 666000, n, ref, 14) + f4(*self.F) + f4(*(self.TB - 5)) + f4(*(self.TB + 5)) + a.tobytes())
        with open(stem + suffix(".HKD"), "wb") as f:
            f.write(i4(837854832, n, ref, 0x26 + int(self.with_gps)) + h.tobytes())
        with open(stem + suffix(".MET"), "wb") as f:
            f.write(i4(599658944, n) + bytes([self.wind]) + f4(*([0.] * (6 + 2 * len(add)))) + i4(ref) + m.tobytes())
        self.any_low |= any(r["m"]["low"] for r in recs)
        if self.irt:
            with open(stem + suffix(".IRT"), "wb") as f:
                f.write(i4(671112496 if self.version == 1 else 671112000, n) + f4(-80, 20) + i4(ref, 1) + f4(10.5) + q.tobytes())

    def filename(self, i, recs):
        return f"{i:02d}_data"

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments.hatpro import hatpro2l1c
        site = dict(self.site)
        site["coefficientFiles"] = coefficients()
        if self.offset:
            site["time_offset"] = self.offset
        with time_variables_only():
            return hatpro2l1c(arg, out, site, uuid=uuid, date=date)

    def expected(self, recs):
        e = self.common(recs)
        del e["range"], e["height"]
        e["tb"] = stack(recs, "tb").astype(float)
        e["frequency"] = np.array(self.F)
        e["elevation_angle"] = np.array([r["el"] for r in recs])
        e["zenith_angle"] = 90 - e["elevation_angle"]
        e["azimuth_angle"] = np.array([r["az"] for r in recs])
        g = lambda k: np.array([float(r["m"][k]) for r in recs])
        e["air_temperature"], e["relative_humidity"], e["air_pressure"] = g("t"), g("rh") / 100, g("p") * 100
        for b, k, name, f in ((1, "ws", "wind_speed", 1 / 3.6), (2, "wd", "wind_direction", 1), (4, "rr", "rainfall_rate", 1 / 3.6e6)):
            if self.wind & b:
                e[name] = g(k) * f
        e["t_amb"] = np.array([r["m"]["ta"] for r in recs], float)
        if self.irt and not self.any_low:
            e["irt"] = g("ir")[:, None] + 273.15
            e["ir_zenith_angle"] = np.full(len(recs), 4.5)
        if self.with_gps:
            self.gps_expected(e, recs)
        else:
            e["latitude"], e["longitude"] = self.site["latitude"], self.site["longitude"]
        e["altitude"] = self.site["altitude"]
        return e


# ---------------------------------------------------------------- RPG-FMCW
class RpgRadar(NcFmt):
    name = "rpg"
    multi = True
    days = True
    min_records = 1

    def setup(self, rng):
        super().setup(rng)
        self.pol = int(pick(rng, 0, 1, 2))
        self.lower = bool(rng.random() < .3)
        self.freq = float(pick(rng, 94.0, 35.0))
        self.moving = bool(rng.random() < .3)
        self.ms = bool(rng.random() < .3)
        nc = int(rng.integers(1, min(4, self.n) + 1))
        two = rng.random() < .4
        self.cfgs, self.written, self.day = [], set(), None
        other = two and self.n > 6 and rng.random() < .6  # programs with other gates and chirps
        for i in range(2 if two else 1):
            n = self.n
            if i and other:
                n = int(rng.integers(5, 2 * self.n))
                nc = int(rng.integers(1, 5))
                self.rng_step = float(pick(rng, 17.0, 31.0, 58.0))
                grid = (np.arange(1, n + 1) * self.rng_step + float(int(rng.integers(0, 200)))).astype("f4").astype(float)
                if grid[-1] == self.cfgs[0]["range"][-1]:
                    grid = grid + .5
            else:
                grid = np.asarray(self.make_range(rng) if not i else self.cfgs[0]["range"], "f4").astype(float)
            c = {"off": np.array([0, *sorted(rng.choice(np.arange(1, n), nc - 1, replace=False))], int), "nyq": np.round(rng.uniform(3, 12, nc), 2).astype("f4"), "prog": int(rng.integers(1, 90)), "range": grid,
                 "samp": round(float(rng.uniform(1, 5)), 2), "nf": round(float(rng.uniform(3, 6)), 1)}
            c.update(self.gps_values(rng))
            self.cfgs.append(c)
        if not self.moving:
            for c in self.cfgs:
                c["lat"], c["lon"] = self.cfgs[0]["lat"], self.cfgs[0]["lon"]
        self.gain = round(float(rng.uniform(1e5, 2e5)), 0)

    @property
    def range(self):
        """gates of the file with the highest last gate"""
        use = {c for d, c in self.written if self.day in (None, d)} or {c for _, c in self.written} or {0}
        return max((self.cfgs[i]["range"] for i in sorted(use)), key=lambda x: x[-1])

    @range.setter
    def range(self, x):
        pass

    def at(self, c, x):
        """values of a profile on the common gates -> nearest ones, with NaN outside"""
        own, rg = c["range"], self.range
        if np.array_equal(own, rg):
            return x
        near = np.abs(own[None, :] - rg[:, None]).argmin(1)
        return np.where((rg < own[0]) | (rg > own[-1]), np.nan, x[near])

    def starts(self, c):
        own, rg = c["range"], self.range
        if np.array_equal(own, rg):
            return c["off"]
        s = np.abs(rg[:, None] - own[c["off"]]).argmin(0)
        s[0] = 0
        return s

    def values(self, rng):
        cfg = int(rng.integers(0, len(self.cfgs)))
        n = self.cfgs[cfg]["range"].size
        f4 = lambda a: np.asarray(a, "f4").astype(float)
        v = {"Ze": f4(10 ** rng.uniform(-5, 3, n)), "MeanVel": f4(profile(rng, n, -6, 6, 0, 3) + 1e-4), "SpecWidth": f4(rng.uniform(.01, 3, n)), "Skewn": f4(rng.uniform(-2, 2, n)), "Kurt": f4(rng.uniform(.1, 6, n))}
        if self.pol:
            v.update(RefRat=f4(rng.uniform(-45, -3, n)), CorrCoeff=f4(rng.uniform(.1, 1, n)), DiffPh=f4(rng.uniform(.1, 3, n)))
        if self.pol == 2:
            v.update(SLDR=f4(rng.uniform(-45, -3, n)), SCorrCoeff=f4(rng.uniform(.1, 1, n)), KDP=f4(rng.uniform(.1, 3, n)), DiffAtt=f4(rng.uniform(.1, 3, n)))
        thin = rng.random(n) < .05
        v["SpecWidth"][thin] = f4(rng.uniform(.0005, .004, int(thin.sum())))
        has = rng.random(n) < .75
        for k in v:
            v[k][~has] = np.nan
            if rng.random() < .2:
                v[k][(rng.random(n) < .1)] = np.nan
        s = {"RR": round(float(rng.uniform(0, 30)), 2), "RelHum": round(float(rng.uniform(10, 100)), 1), "EnvTemp": round(float(rng.uniform(240, 310)), 2), "BaroP": round(float(rng.uniform(900, 1040)), 1),
             "WS": round(float(rng.uniform(0, 60)), 1), "WD": round(float(rng.uniform(0, 360)), 1), "DDVolt": round(float(rng.uniform(1, 5)), 3), "DDTb": round(float(rng.uniform(100, 250)), 2), "LWP": round(float(rng.uniform(-20, 900)), 2),
             "PowIF": round(float(rng.uniform(-10, 10)), 2), "Elev": 90.0, "Azi": round(float(rng.uniform(0, 359)), 1), "Status": 0.0, "TransPow": round(float(rng.uniform(1, 3)), 2), "TransT": 300.0, "RecT": 301.0, "PCT": 302.0}
        r = {"v": v, "has": has, "s": s, "ms": int(rng.integers(0, 1000)) if self.ms else 0, "cfg": cfg, "qf": int(rng.integers(0, 8)), "el": 90.0}
        if rng.random() < .06:
            r["el"] = float(pick(rng, 30.0, 84.0, 100.0))
        elif self.moving:
            r["el"] = round(90 + float(rng.uniform(-.04, .04)), 3)
        s["Elev"] = r["el"]
        return r

    def new(self, rng, t):
        r = super().new(rng, t)
        r["t"] = t + datetime.timedelta(milliseconds=r["ms"])
        return r

    SC = ("RR", "RelHum", "EnvTemp", "BaroP", "WS", "WD", "DDVolt", "DDTb", "LWP", "PowIF", "Elev", "Azi", "Status", "TransPow", "TransT", "RecT", "PCT")
    V1 = ("Ze", "MeanVel", "SpecWidth", "Skewn", "Kurt")
    V2 = ("RefRat", "CorrCoeff", "DiffPh")
    V3 = ("SLDR", "SCorrCoeff", "KDP", "DiffAtt")

    def regroup(self, parts):
        """files of one day and one configuration"""
        out = []
        for p in parts:
            g = {}
            for r in p:
                g.setdefault((r["t"].date(), r["cfg"]), []).append(r)
            out += list(g.values())
        return out

    def write(self, path, recs):
        c = self.cfgs[recs[0]["cfg"]]
        nc, n = len(c["off"]), c["range"].size
        self.written.add((recs[0]["t"].date(), recs[0]["cfg"]))
        f = lambda *x: np.array(x, "<f4").tobytes()
        i4 = lambda *x: np.array(x, "<i4").tobytes()
        ts = [int(secs(r["t"].replace(microsecond=0), E2001)) for r in recs]
        h = np.array([min(ts), max(ts)], "<u4").tobytes() + i4(c["prog"], 1 if self.pol else 0) + b"prog\0cust\0"
        h += f(self.freq, .3, .25, self.gain, .5) + np.array([self.pol], "i1").tobytes() + f(c["samp"], c["lat"], c["lon"]) + i4(1, n, 2, 2, nc)
        h += np.asarray(c["range"], "<f4").tobytes() + f(0, 100) + f(0, 100) + i4(*([256] * nc)) + i4(*c["off"]) + i4(*([1000] * nc)) + f(*([.5] * nc)) + f(*([30.0] * nc)) + f(*c["nyq"])
        h += bytes([0, 0, 0, 0, 4]) + np.array([100, 300], "<u2").tobytes() + f(c["nf"])
        n_dummy = 3 + 2 + 4 + n + (n if self.pol else 0)
        b = [i4(889347, len(h)), h, i4(len(recs))]
        for t, r in zip(ts, recs, strict=True):
            s = np.array([t], "<u4").tobytes() + i4(r["ms"]) + bytes([r["qf"]]) + f(*[r["s"][k] for k in self.SC]) + f(*([7.0] * n_dummy)) + r["has"].astype("i1").tobytes()
            for g in range(n):
                if r["has"][g]:
                    x = [r["v"][k][g] for k in self.V1 + (self.V2 if self.pol else ())]
                    if self.pol == 2:
                        x += [7.0] + [r["v"][k][g] for k in self.V3]
                    s += f(*[self.missing(y) for y in x])
            b += [i4(len(s)), s]
        open(path[:-3] + (".lv1" if self.lower else ".LV1"), "wb").write(b"".join(b))

    def missing(self, y):
        return (-999.0, 0.0)[int(self.rng.integers(0, 2))] if np.isnan(y) else y

    def filename(self, i, recs):
        return f"{int(self.rng.integers(100, 999))}_{i:02d}"

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import rpg2nc
        return rpg2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def kept(self, recs):
        z = np.array([90 - r["el"] for r in recs])
        near = z[(z > -5) & (z < 15)]
        if not near.size:
            return []
        m = np.median(near)
        return [r for r, x in zip(recs, z, strict=True) if abs(x - m) <= .1]

    def zenith(self, recs):
        # several files of slightly tilted profiles: height uses the median
        return float(np.median([90 - r["el"] for r in recs]))

    NAMES = {"Ze": "Zh", "MeanVel": "v", "SpecWidth": "width", "Skewn": "skewness", "Kurt": "kurtosis"}

    def expected(self, recs):
        self.day = recs[0]["t"].date()
        e = self.common(recs)
        names = dict(self.NAMES)
        if self.pol:
            names.update({"RefRat": "zdr", "CorrCoeff": "rho_hv", "DiffPh": "phi_dp"} if self.pol == 2 else {"RefRat": "ldr", "CorrCoeff": "rho_cx", "DiffPh": "phi_cx"})
        if self.pol == 2:
            names.update(SLDR="sldr", SCorrCoeff="srho_hv", KDP="kdp", DiffAtt="differential_attenuation")
        raw = {k: nan_masked([self.at(self.cfgs[r["cfg"]], r["v"][k]) for r in recs]) for k in names}
        thin = (raw["SpecWidth"].filled(0) < .005)
        for k, o in names.items():
            x = raw[k].copy()
            if k == "Ze":
                x = 10 * ma.log10(x)
            if o == "ldr":
                x = ma.masked_where(x.filled(0) <= -35, x)
            if o == "sldr":
                x = ma.masked_where(x.filled(0) <= -40, x)
            if o in ("Zh", "v", "ldr", "width", "sldr"):
                x = ma.masked_where(thin, x)
            e[o] = x
        s = {k: np.array([r["s"][k] for r in recs]) for k in self.SC}
        e["rainfall_rate"] = s["RR"] / 3600 / 1000
        e["lwp"] = s["LWP"] / 1000
        e["relative_humidity"] = s["RelHum"] / 100
        e["air_pressure"] = s["BaroP"] * 100
        e["air_temperature"] = s["EnvTemp"]
        e["wind_speed"] = s["WS"] / 3.6
        e["wind_direction"] = s["WD"]
        e["voltage"] = s["DDVolt"]
        e["brightness_temperature"] = s["DDTb"]
        e["azimuth_angle"] = s["Azi"]
        e["transmitted_power"] = s["TransPow"]
        e["if_power"] = s["PowIF"]
        e["transmitter_temperature"], e["receiver_temperature"], e["pc_temperature"] = s["TransT"], s["RecT"], s["PCT"]
        e["zenith_angle"] = np.array([90 - r["el"] for r in recs])
        e["quality_flag"] = np.array([r["qf"] for r in recs])
        c = [self.cfgs[r["cfg"]] for r in recs]
        st = [self.starts(x) for x in c]
        e["nyquist_velocity"] = np.array([np.repeat(x["nyq"], np.diff([*y, self.range.size])) for x, y in zip(c, st, strict=True)])
        m = max([len(self.cfgs[i]["off"]) for d, i in self.written if d == self.day] or [len(x["off"]) for x in c])
        e["chirp_start_indices"] = ma.masked_less(np.array([[*y, *[-1] * (m - len(y))] for y in st]), 0)
        e["program_number"] = np.array([x["prog"] for x in c])
        e["sample_duration"] = np.array([x["samp"] for x in c])
        e["noise_threshold"] = np.array([x["nf"] for x in c])
        e["antenna_gain"] = 10 * np.log10(self.gain)
        e["radar_frequency"] = self.freq
        e["dual_polarization"] = self.pol
        self.gps_expected(e, [{"lat": x["lat"], "lon": x["lon"]} for x in c])
        e["altitude"] = self.site["altitude"]
        return e


# ---------------------------------------------------------------- message-based ceilometers
class Messages(Lidar):
    """one text file of time-stamped messages"""
    reference = "lower"
    digits = 5

    def setup(self, rng):
        super().setup(rng)
        self.zen = float(pick(rng, 0, 3, 5))
        self.msg = int(pick(rng, 0, 1))
        self.scale = 100

    def values(self, rng):
        lim = 2 ** (4 * self.digits - 1) - 1
        raw = np.clip(np.round(self.beta(rng) / self.factor / self.unit / (self.scale / 100)), -lim - 1, lim).astype(int)
        return {"b": raw * self.unit * self.scale / 100, "raw": raw}

    unit = 1e-8

    def hexed(self, r):
        m = 16 ** self.digits
        return "".join(f"{int(x) % m:0{self.digits}X}" for x in r["raw"]).encode()

    def write(self, path, recs):
        with open(path, "wb") as f:
            for r in recs:
                f.write(self.stamp(r["t"]) + self.message(r))

    ext = ".dat"

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import ceilo2nc
        return ceilo2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def expected(self, recs):
        return self.base(recs)


def crc(b):
    return f"{binascii.crc_hqx(b, 0xFFFF) ^ 0xFFFF:04x}".encode()


class Cl31(Messages):
    name = "cl31"
    msg_len = 35

    def setup(self, rng):
        super().setup(rng)
        self.comma = rng.random() < .3
        self.dash = rng.random() < .7
        self.site["model"] = "cl31"
        if rng.random() < .5 and not self.comma:
            del self.site["model"]

    def stamp(self, t):
        if self.comma:
            return t.strftime("%Y-%m-%d %H:%M:%S,").encode()
        return t.strftime(("-" if self.dash else "") + "%Y-%m-%d %H:%M:%S\r\n").encode()

    def message(self, r):
        l1 = b"CLA020" + (b"2" if self.msg else b"1") + b"1"
        b = l1 + b"\x02\r\n" + (b"00 ///// ///// ///// " + b"000000008080") + b"\r\n"
        if self.msg:
            b += b"  3 055  4 170  0 ///  0 ///  0 ///"[:self.msg_len].rjust(self.msg_len) + b"\r\n"
        l4 = f"{self.scale:05d} {int(self.step):02d} {self.n:04d} 100 +34 099 {int(self.zen):02d} 0006 L0016HN15 139".encode().ljust(47)
        b += l4 + b"\r\n" + self.hexed(r) + b"\r\n\x03"
        return b"\x01" + b + crc(b) + b"\x04\r\n"


class Cs135(Messages):
    name = "cs135"

    def setup(self, rng):
        super().setup(rng)
        self.site["model"] = "cs135"

    def stamp(self, t):
        return t.strftime("%Y-%m-%dT%H:%M:%S.%f,").encode()

    def message(self, r):
        l1 = b"CS0000" + (b"004" if self.msg else b"002")
        b = l1 + b"\x02\r\n" + b"00 099 ///// ///// ///// /////  " [:31].ljust(31) + b"800000000000" + b"\r\n"
        if self.msg:
            b += b"  0 ///  0 ///  0 ///  0 ///  0 ///".rjust(40) + b"\r\n"
        l4 = f"{self.scale:05d} {int(self.step):02d} {self.n:04d} 100 +34 {int(self.zen):02d} 0006 0010 15".encode().ljust(41)
        b += l4 + b"\r\n" + self.hexed(r) + b"\r\n\x03"
        return b"\x01" + b + crc(b) + b"\x04\r\n"


class Ct25k(Messages):
    name = "ct25k"
    digits = 4
    unit = 1e-7

    def __init__(self, rng, n_gates=None):
        super().__init__(rng, 256)

    def setup(self, rng):
        super().setup(rng)
        self.step = 30.0
        self.raw_range = np.arange(256) * 30.0

    def stamp(self, t):
        return t.strftime("-%Y-%m-%d %H:%M:%S\r\n").encode()

    def message(self, r):
        b = b"\x01CTA20" + (b"7" if self.msg else b"2") + b"0\x02\r\n" + b"00 ///// ///// ///// 00000080"[:29] + b"\r\n"
        b += f"{self.scale:03d} 0 100 +34 100 0010 {int(self.zen):+03d} 0006 LF7HN1 139".encode() + b"\r\n"
        h = self.hexed(r)
        for i in range(16):
            b += f"{i:03d}".encode() + h[i * 64:(i + 1) * 64] + b"\r\n"
        return b + b"\x03\r\n"


# ---------------------------------------------------------------- Radiometrics
class Radiometrics(NcFmt):
    name = "radiometrics"
    multi = True
    days = True
    min_records = 1
    ext = ".csv"

    def make_range(self, rng):
        return np.array([0, *np.cumsum(rng.choice([.1, .25, .5], self.n - 1))]) * 1000

    def setup(self, rng):
        super().setup(rng)
        self.new_style = bool(rng.random() < .5)
        self.quality = bool(rng.random() < .5)

    def values(self, rng):
        n = self.n
        def prof(lo, hi, d):
            x = profile(rng, n, lo, hi, 0, d)
            if rng.random() < .1:
                x[int(rng.integers(n))] = np.nan
            return x
        return {"T": prof(200, 300, 1), "q": prof(.01, 14, 2), "rh": prof(1, 100, 1), "irt": round(float(rng.uniform(200, 300)), 1), "iwv": round(float(rng.uniform(.1, 5)), 2),
                "lwp": round(float(rng.uniform(-.02, 1.2)), 3), "procs": [str(x) for x in rng.permutation(["Zenith", "Angle20(N)", "Angle20(S)"])[:int(rng.integers(1, 4))]]}

    def write(self, path, recs):
        rg = ", ".join(f"{x / 1000:5.2f}" for x in self.range)
        dq = ",DataQuality" if self.quality else ""
        d1 = ",1" if self.quality else ""
        L = []
        n = [0]
        def line(t, x):
            n[0] += 1
            L.append(f"{n[0]:6d},{t:%m/%d/%y %H:%M:%S},{x}{d1}")
        def P(x):
            return ",".join("-999.*" if np.isnan(v) else f"{v:g}" for v in x)
        if not self.new_style:
            L.append(f"Record,Date/Time,10,Tamb(K),Rh(%),Pres(mb),Tir(K),Rain,Vint(cm),Lqint(mm),{rg}{dq}")
            for r in recs:
                for k, v in ((11, "T"), (12, "q"), (13, "rh"), (14, "q")):
                    line(r["t"], f"{k},297.0, 63.5, 999.6,{r['irt']},N, {r['iwv']}, {r['lwp']},{P(r[v])}")
        else:
            L.append(f"Record,Date/Time,100,Record Type,Title")
            L.append(f"Record,Date/Time,200,Tamb(K),Rh(%),Pres(mb),Tir(K),Rain{dq}")
            L.append(f"Record,Date/Time,300,Int. Vapor(cm),Int. Liquid(mm),Cloud Base(km){dq}")
            L.append(f"Record,Date/Time,400,LV2 Processor, {rg}{dq}")
            for i, t in enumerate(("Temperature (K)", "Vapor Density (g/m^3)", "Liquid (g/m^3)", "Relative Humidity (%)")):
                n[0] += 1
                L.append(f"{n[0]:6d},{recs[0]['t']:%m/%d/%y %H:%M:%S},101,{401 + i},{t}")
            for r in recs:
                line(r["t"], f"201, 278.7780,  92.4200,1004.2000, {r['irt']},0")
                procs = r["procs"] if "Zenith" in r["procs"] else ["Zenith", *r["procs"]]
                for p in procs:
                    g = 1 if p == "Zenith" else 1.5
                    for k, v in ((401, "T"), (402, "q"), (403, "q"), (404, "rh")):
                        line(r["t"], f"{k},{p},{P(r[v] * g)}")
                for p in procs:
                    g = 1 if p == "Zenith" else 1.5
                    line(r["t"], f"301, {r['iwv'] * g:.3f}, {r['lwp'] * g:.4f}, 1.5")
        L.append("Record,Date/Time,99,Neural Nets:LINliq20.net")
        open(path, "w").write("\n".join(L) + "\n")

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import radiometrics2nc
        return radiometrics2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def expected(self, recs):
        e = self.common(recs)
        e["lwp"] = np.array([r["lwp"] for r in recs])
        e["iwv"] = np.array([r["iwv"] * 10 for r in recs])
        e["temperature"] = nan_masked(stack(recs, "T"))
        e["absolute_humidity"] = nan_masked(stack(recs, "q") / 1000)
        e["relative_humidity"] = nan_masked(stack(recs, "rh") / 100)
        e["irt"] = np.array([[r["irt"]] for r in recs])
        for k in ("latitude", "longitude", "altitude"):
            e[k] = self.site[k]
        return e


class Wvr(NcFmt):
    name = "wvr"
    multi = True
    days = True
    min_records = 1
    ext = ".los"
    lo_gates, hi_gates = 3, 4

    def values(self, rng):
        return {"iwv": round(float(rng.uniform(.1, 6)), 3), "lwp": round(float(rng.uniform(-.01, .3)), 4), "el2": float(pick(rng, 90.0, 90.0, 90.4, 59.9, 120.2)), "tb23": round(float(rng.uniform(10, 80)), 2) if rng.random() < .97 else -600.0,
                "tb31": round(float(rng.uniform(10, 80)), 2) if rng.random() < .97 else -669.66}

    def kept(self, recs):
        return [r for r in recs if abs(r["el2"] - 90) < 1 and r["tb23"] > 0 and r["tb31"] > 0]

    def write(self, path, recs):
        L = [" RETRIEVAL COEFFICIENTS:", "Vapor  c0 =    .005 c1 =  21.647 c2 = -12.897", "Cosmic background temp = 2.730", "  ",
             "  date    time   TbSky23 TbSky31    TkBB    VapCM    LiqCM   DelCM   AZact  ELact Tau23  Tau31  Tamb   Rh  Pres  Rain"]
        for r in recs:
            L.append(f"{r['t']:%m/%d/%y %H:%M:%S} {r['tb23']:7.2f} {r['tb31']:7.2f} 296.99 {r['iwv']:8.3f} {r['lwp']:8.4f}   20.41     .0  {r['el2']:5.1f}  .2218  .1319 233.1 ****** 1024.0 -.01")
        open(path, "w").write("\n".join(L) + "\n")

    def run(self, arg, out, date=None, uuid=None):
        from cloudnetpy.instruments import radiometrics2nc
        return radiometrics2nc(arg, out, dict(self.site), uuid=uuid, date=date)

    def expected(self, recs):
        e = self.common(recs)
        del e["range"], e["height"]
        e["lwp"] = np.array([r["lwp"] * 10 for r in recs])
        e["iwv"] = np.array([r["iwv"] * 10 for r in recs])
        for k in ("latitude", "longitude", "altitude"):
            e[k] = self.site[k]
        return e


ALL = {c.name: c for c in (Hatpro, HatproL1c, RpgRadar, Cl31, Cs135, Ct25k, Radiometrics, Wvr)}
