"""Generators of raw text logs (weather stations, rain gauges, visibility sensors,
disdrometers) with ground truth per record.

A format renders records {"t": datetime, "tok": [[...], ...]} to text; expected()
gives the documented converted value of every output variable of a record, or None
if missing.  Everything here is written from the format descriptions, not by calling
the readers.
"""
import datetime
import math

import numpy as np

from . import disdroclass

MMH = 1 / 3.6e6


class F:
    """Field: gen(rng) -> token or list of tokens; var/conv: output variable."""

    def __init__(self, name, gen, var=None, conv=None, miss=(), num=None, dconv=None):
        self.name, self.gen, self.var, self.conv = name, gen, var, conv
        self.miss = miss  # tokens meaning missing
        self.num, self.dconv = num, dconv  # disdronator key and conversion


class T:
    """Time field rendered from the timestamp."""
    name = "time"
    var = None

    def __init__(self, fmt):
        self.fmt = fmt

    def tok(self, t):
        return self.fmt(t) if callable(self.fmt) else t.strftime(self.fmt)


def num(lo, hi, dec=2, miss=(), pmiss=.06, width=0, zero=0.0):
    def g(rng):
        if miss and rng.random() < pmiss:
            return str(rng.choice(miss))
        v = 0.0 if rng.random() < zero else rng.uniform(lo, hi)
        return f"{v:0{width}.{dec}f}" if dec else f"{int(round(v)):0{width}d}"
    return g


def const(s):
    return lambda rng: s


def word(*ws):
    return lambda rng: str(rng.choice(ws))


def ident(x):
    return x


class Fmt:
    name = ""
    multi = True       # converter accepts a list of files
    site = None        # site name required by the converter
    sep = " "
    fields = ()
    eol = "\n"
    cumulative = {}    # var -> conv of raw counter to output unit
    accum = None       # (amount var, rate var): running sum computed by the converter
    encoding = "utf-8"
    nodate_error = ("ValidTimeStampError",)
    min_records = 1
    strict_len = True  # records with another number of tokens are dropped
    vec_check = True

    def header(self):
        return ""

    # --- records
    def new(self, rng, t):
        toks = []
        for f in self.fields:
            if isinstance(f, T):
                toks.append(f.tok(t))
            else:
                toks.append(f.gen(rng))
        return {"t": t, "tok": toks}

    def flat(self, rec):
        out = []
        for x in rec["tok"]:
            out.extend(x if isinstance(x, list) else [x])
        return out

    def line(self, rec):
        return self.sep.join(self.flat(rec))

    def render(self, recs):
        return self.header() + "".join(r["raw"] if "raw" in r else self.line(r) + self.eol for r in recs)

    def write(self, path, recs):
        data = self.render(recs)
        with open(path, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode(self.encoding, "surrogateescape"))
        return path

    # --- expectations
    def offset(self):
        """shift from rendered to UTC timestamps"""
        return datetime.timedelta(0)

    def utc(self, rec):
        return rec["t"] + self.offset()

    def value(self, f, tok):
        if isinstance(tok, list):
            return f.conv(tok)
        if tok.strip() in f.miss:
            return None
        v = f.conv(float(tok.replace(",", ".")))
        return None if v is None or (isinstance(v, float) and math.isnan(v)) else v

    def expected(self, rec):
        out = {}
        for f, tok in zip(self.fields, rec["tok"]):
            if f.var is not None and f.var not in self.cumulative:
                out[f.var] = self.value(f, tok)
        return out

    def raw_counter(self, rec, var):
        for f, tok in zip(self.fields, rec["tok"]):
            if f.var == var:
                return None if tok.strip() in f.miss else float(tok.replace(",", "."))
        raise KeyError(var)

    def run(self, files, out, date=None, uuid=None, meta=None):
        raise NotImplementedError

    def meta(self):
        return {"name": self.site or "Testsite", "latitude": 50.0, "longitude": 10.0, "altitude": 100.0}


NAN = ("NaN", "nan")


class WsFmt(Fmt):
    def run(self, files, out, date=None, uuid=None, meta=None):
        from cloudnetpy.instruments import ws2nc
        return ws2nc(files, out, meta or self.meta(), uuid=uuid, date=date)


def ws_fields(T_=None):
    return None


c2k = lambda x: x + 273.15
pct = lambda x: x / 100
hpa = lambda x: x * 100
mmmin = lambda x: x / 60 / 1000


def wrap(x):
    return x + 360 if -2 < x < 0 else (x - 360 if 360 <= x < 362 else x)


def wdir(miss=(), dec=2):
    base = num(0, 359.9, dec, miss)
    def g(rng):
        r = rng.random()
        if r < .08:
            return f"{rng.uniform(360, 361.9):.{dec}f}" if dec else "360"
        if r < .13:
            return f"{-rng.uniform(0.01, 1.9):.{dec}f}" if dec else "-1"
        return base(rng)
    return g


ISO = "%Y-%m-%dT%H:%M:%SZ"


class Palaiseau(WsFmt):
    name, site = "ws-palaiseau", "Palaiseau"
    sep = "  "
    encoding = "latin-1"
    cols = ("Date Time (yyyy-mm-ddThh:mm:ssZ)", "Wind speed (m/s)", "Wind direction (degres)", "Air temperature (\xb0C)", "Relative humidity (%)", "Pressure (hPa)",
            "Precipitation rate (mm/min)", "24-hr cumulated precipitation since 00UT (mm)")
    rate = staticmethod(mmmin)
    cumulative = {"rainfall_amount": lambda x: x / 1000}

    def __init__(self):
        self.fields = (T(ISO), F("ws", num(0, 30, 2, NAN), "wind_speed", ident, NAN), F("wd", wdir(NAN), "wind_direction", wrap, NAN), F("ta", num(-30, 40, 2, NAN), "air_temperature", c2k, NAN),
                       F("rh", num(5, 100, 2, NAN), "relative_humidity", pct, NAN), F("p", num(900, 1050, 2, NAN), "air_pressure", hpa, NAN), F("rr", num(0, 3, 2, NAN), "rainfall_rate", self.rate, NAN),
                       F("ra", num(0, 9, 2, NAN), "rainfall_amount", None, NAN))

    def header(self):
        return "# Date created : 2022-01-02\n#\n" + "".join(f"# Col. {i + 1} : {c}\n" for i, c in enumerate(self.cols)) + "#  01 02 03\n#\n"


class Bucharest(Palaiseau):
    name, site = "ws-bucharest", "Bucharest"
    rate = staticmethod(lambda x: x * MMH)


class Maido(Palaiseau):
    name, site = "ws-maido", "Ma\xefdo Observatory"
    cols = ("Date Time yyyy-mm-ddThh:mm:ssZ", "Wind direction - average (\xb0)", "Wind speed - maximum value (m/s)", "Wind speed - average (m/s)", "Pressure - average (hPa)",
            "Relative humidity - maximum value (%)", "Relative humidity - average (%)", "Air temperature - minimum value (\xb0C)", "Air temperature - average (\xb0C)")
    cumulative = {}

    def __init__(self):
        self.fields = (T(ISO), F("wd", wdir(NAN), "wind_direction", wrap, NAN), F("x", num(0, 40)), F("ws", num(0, 30, 2, NAN), "wind_speed", ident, NAN), F("p", num(700, 800, 2, NAN), "air_pressure", hpa, NAN),
                       F("x", num(5, 100)), F("rh", num(5, 100, 2, NAN), "relative_humidity", pct, NAN), F("x", num(-5, 30)), F("ta", num(-5, 30, 2, NAN), "air_temperature", c2k, NAN))


class Potenza(Palaiseau):
    name, site = "ws-potenza", "Potenza"
    cols = ("Date Time (yyyy-mm-ddThh:mm:ssZ)", "Wind speed Maximum value (m/s)", "Wind speed Average value (m/s)", "Wind direction (degres)", "Air temperature (\xb0C)", "Relative humidity (%)", "Pressure (hPa)",
            "Precipitation rate (mm/min)", "24-hr cumulated precipitation (mm)")
    cumulative = {}

    def __init__(self):
        self.fields = (T(ISO), F("x", num(0, 30)), F("ws", num(0, 30, 2, NAN), "wind_speed", ident, NAN), F("wd", wdir(NAN), "wind_direction", wrap, NAN), F("ta", num(-30, 40, 2, NAN), "air_temperature", c2k, NAN),
                       F("rh", num(5, 100, 2, NAN), "relative_humidity", pct, NAN), F("p", num(900, 1050, 2, NAN), "air_pressure", hpa, NAN), F("x", num(0, 3)), F("x", num(0, 9)))


def q(s):
    return f'"{s}"'


class Toa5Ws(WsFmt):
    multi = False
    sep = ","
    cols = units = ()

    def header(self):
        n = len(self.cols)
        return ('"TOA5","X","CR1000","1","CR1000.Std","CPU:X.CR1","1","meteo"\n' + ",".join(q(c) for c in self.cols) + "\n" + ",".join(q(u) for u in self.units) + "\n"
                + ",".join(['""'] * n) + "\n")


TOAT = T(lambda t: q(t.strftime("%Y-%m-%d %H:%M:%S")))
CNAN = ('"NAN"',)
CNAN2 = ('"NAN"', "NAN", '""')


class Granada(Toa5Ws):
    name, site = "ws-granada", "Granada"
    cols = ("TIMESTAMP", "RECORD", "air_t_Avg", "rh_Avg", "pressure_Avg", "wind_speed_avg", "wind_dir_avg", "wind_dir_std", "rain_Tot")
    units = ("TS", "RN", "degC", "%", "hPa", "m/s", "Deg", "Deg", "mm")
    accum = ("rainfall_amount", "rainfall_rate")

    def __init__(self):
        m = CNAN2
        self.fields = (TOAT, F("n", num(0, 9999, 0)), F("ta", num(-30, 40, 2, m), "air_temperature", c2k, m), F("rh", num(5, 100, 2, m), "relative_humidity", pct, m),
                       F("p", num(900, 1050, 3, m), "air_pressure", hpa, m), F("ws", num(0, 30, 3, m), "wind_speed", ident, m), F("wd", wdir(m), "wind_direction", wrap, m), F("x", num(0, 30)),
                       F("rr", num(0, 2, 1, m), "rainfall_rate", mmmin, m))


class Juelich(Toa5Ws):
    multi = True
    name, site = "ws-juelich", "J\xfclich"
    cols = ("TIMESTAMP", "RECORD", "AirTC_Avg", "RH", "WS_ms_S_WVT", "WindDir_D1_WVT", "WS_ms_Max", "BV_BP_Avg", "BattV_Avg")
    units = ("TS", "RN", "Deg C", "%", "meters/Second", "Deg", "meters/Second", "hPa", "Volts")

    def __init__(self):
        m = CNAN
        self.fields = (TOAT, F("n", num(0, 9999, 0)), F("ta", num(-30, 40, 2, m), "air_temperature", c2k, m), F("rh", num(5, 100, 2, m), "relative_humidity", pct, m),
                       F("ws", num(0, 30, 3, m), "wind_speed", ident, m), F("wd", wdir(m), "wind_direction", wrap, m), F("x", num(0, 30)), F("p", num(900, 1050, 3, m), "air_pressure", hpa, m), F("x", num(11, 14)))


class Falkenberg(Toa5Ws):
    name, site = "ws-falkenberg", "Falkenberg"
    cols = ("TIMESTAMP", "RECORD", "WS500_relative_humidity", "WS500_absolute_humidity", "WS500_absolute_air_pressure", "WS500_air_temperature", "WS500_wind_speed_avg", "WS500_wind_direction_avg", "X")
    units = ("TS", "RN", "%", "g m-3", "hPa", "degC", "m s-1", "deg", "")

    def __init__(self):
        m = CNAN2
        self.fields = (TOAT, F("n", num(0, 9999, 0)), F("rh", num(5, 100, 2, m), "relative_humidity", pct, m), F("x", num(0, 30)), F("p", num(900, 1050, 3, m), "air_pressure", hpa, m),
                       F("ta", num(-30, 40, 2, m), "air_temperature", c2k, m), F("ws", num(0, 30, 3, m), "wind_speed", ident, m), F("wd", wdir(m), "wind_direction", wrap, m), F("x", num(0, 9)))


class Kenttarova(WsFmt):
    name, site = "ws-kenttarova", "Kentt\xe4rova"
    sep = ","
    accum = ("rainfall_amount", "rainfall_rate")
    cols = ("Read time (UTC+2)", "Temp 2m (C)", "Humidity 2m (%)", "Temp 10m (C)", "Wind speed (m/s)", "Wind dir (deg)", "Pressure (hPa)", "Snow", "Precipitation (?)")

    def __init__(self):
        m = ("",)
        self.fields = (T("%Y-%m-%d %H:%M:%S"), F("ta", num(-30, 40, 1, m), "air_temperature", c2k, m), F("rh", num(5, 100, 0, m), "relative_humidity", pct, m), F("x", num(-20, 20, 1, m)),
                       F("ws", num(0, 30, 1, m), "wind_speed", ident, m), F("wd", wdir(m, 1), "wind_direction", wrap, m), F("p", num(9000, 10400, 0, m), "air_pressure", lambda x: x * 10, m), F("x", num(0, 90, 0, m)),
                       F("rr", num(0, 9, 1, m), "rainfall_rate", lambda x: x * MMH / 10, m))

    def header(self):
        return ",".join(q(c) for c in self.cols) + "\n"

    def offset(self):
        return datetime.timedelta(hours=-2)


class Hyytiala(WsFmt):
    name, site = "ws-hyytiala", "Hyyti\xe4l\xe4"
    multi = True
    accum = ("rainfall_amount", "rainfall_rate")
    cols = ("y", "m", "d", "minute", "AaRNRT/mm", "AaNRT/mm", "BaRT/mm", "Pa/kPa", "Ta/dsC", "RH/pcnt", "WD/ds", "WS/(m/s)")

    def __init__(self):
        m = ("-99.99", "-99.9")
        self.fields = (T("%Y"), T(lambda t: f"{t.month:2d}"), T(lambda t: f"{t.day:2d}"), T(lambda t: f"{t.hour * 60 + t.minute:4d}"), F("x", num(0, 2, 3)), F("rr", num(0, 2, 3, m), "rainfall_rate", mmmin, m),
                       F("x", num(300, 400, 3)), F("p", num(95, 104, 2, m), "air_pressure", lambda x: x * 1000, m), F("ta", num(-30, 40, 2, m), "air_temperature", c2k, m),
                       F("rh", num(5, 100, 2, m), "relative_humidity", pct, m), F("wd", wdir(m), "wind_direction", wrap, m), F("ws", num(0, 30, 2, m), "wind_speed", ident, m))

    def header(self):
        return "# SMEAR-II, Hyyti\xe4l\xe4\n# Precipitation\n# " + " ".join(self.cols) + " \n"


class Galati(WsFmt):
    name, site = "ws-galati", "Gala\u021bi"
    multi = True
    sep = ","
    accum = ("rainfall_amount", "rainfall_rate")
    cols = ("TimeStamp", "Record", "Temperatura", "Umiditate_relativa", "Presiune_atmosferica", "Vizibilitate", "Precipitatii", "Viteza_vant", "Directie_vant", "BattV")

    def __init__(self):
        m = ("NAN", "")
        self.fields = (T("%Y-%m-%d %H:%M:%S.000"), F("n", num(0, 9999, 0)), F("ta", num(-30, 40, 2, m), "air_temperature", c2k, m), F("rh", num(5, 100, 2, m), "relative_humidity", pct, m),
                       F("p", num(700, 790, 4, m), "air_pressure", lambda x: x * 133.322, m), F("v", num(100, 20000, 0, m), "visibility", ident, m), F("rr", num(0, 2, 1, m), "rainfall_rate", mmmin, m),
                       F("ws", num(0, 30, 3, m), "wind_speed", ident, m), F("wd", wdir(m), "wind_direction", wrap, m), F("x", num(11, 14)))

    def header(self):
        return ",".join(self.cols) + "\n"


class Lampedusa(WsFmt):
    name, site = "ws-lampedusa", "Lampedusa"
    multi = True
    sep = ","
    accum = ("rainfall_amount", "rainfall_rate")

    def __init__(self):
        m = ("///", "")
        self.fields = (T("%y%m%d %H%M%S"), F("x", const("VALID")), F("x", const("ICOS")), F("ta", num(-3, 40, 2, m, width=6), "air_temperature", c2k, m), F("rh", num(5, 100, 0, m, width=4), "relative_humidity", pct, m),
                       F("x", num(0, 20)), F("p", num(980, 1040, 2, m), "air_pressure", hpa, m), F("ws", num(0, 30, 1, m), "wind_speed", ident, m), F("wd", wdir(m, 0), "wind_direction", wrap, m), F("x", num(0, 30, 1)),
                       F("x", num(0, 359, 0)), F("rr", num(0, 2, 1, m), "rainfall_rate", mmmin, m), F("x", num(0, 9, 1)), F("x", const("")))


class Limassol(WsFmt):
    name, site = "ws-limassol", "Limassol"
    sep = "\t"
    accum = ("rainfall_amount", "rainfall_rate")
    cols = ("Date Time (yyyy-mm-ddThh:mm:ss)", "Air temperature (\xb0C)", "Wind speed at 2m (m/s)", "Relative humidity (%)", "Total precipitation (mm)", "Wind speed at 10m (m/s)", "Wind direction at 10m (degrees)")

    def __init__(self):
        m = ("--", "nan")
        self.fields = (T("%Y-%m-%dT%H:%M:%S"), F("ta", num(-3, 40, 1, m), "air_temperature", c2k, m), F("x", num(0, 20, 1, m)), F("rh", num(5, 100, 0, m), "relative_humidity", pct, m),
                       F("rr", num(0, 9, 1, m), "rainfall_rate", lambda x: x / 600 / 1000, m), F("ws", num(0, 30, 1, m), "wind_speed", ident, m), F("wd", wdir(m, 3), "wind_direction", wrap, m))

    def header(self):
        return "# Weather data\n" + "".join(f"# Col. {i + 1} : {c}\n" for i, c in enumerate(self.cols)) + "# 01 02 03\n\n"


class LAquila(WsFmt):
    name, site = "ws-laquila", "L'Aquila"
    sep = ","
    accum = ("rainfall_amount", "rainfall_rate")

    def __init__(self):
        m = ("", "nan")
        self.fields = (T(ISO), F("ta", num(-30, 40, 1, m), "air_temperature", c2k, m), F("p", num(900, 1050, 1, m), "air_pressure", hpa, m), F("rh", num(5, 100, 1, m), "relative_humidity", pct, m),
                       F("rr", num(0, 2, 1, m), "rainfall_rate", mmmin, m), F("ws", num(0, 30, 2, m), "wind_speed", ident, m), F("wd", wdir(m, 1), "wind_direction", wrap, m))

    def header(self):
        return "#\n# Location: L_Aquila\n# DateTime,AirTemperature,Pressure,RelativeHumidity,PrecipitationRate,WindSpeed,WindDirection\n"


class Cluj(WsFmt):
    name, site = "ws-cluj", "Cluj-Napoca"
    multi = True
    sep = "\t"
    accum = ("rainfall_amount", "rainfall_rate")
    cols = ("DateTime", "Precipitation_mm", "WS_azimuth_ms", "WD_azimuth_deg", "Virtual_temp_C", "Air_temperature_C", "rel_humidity_pct", "air_pressure_hPA")

    def __init__(self):
        m = ("", "nan")
        self.fields = (T("%d.%m.%y %H:%M:%S.000"), F("rr", num(0, 9, 1, m), "rainfall_rate", lambda x: x / 600 / 1000, m), F("ws", num(0, 30, 1, m), "wind_speed", ident, m), F("wd", wdir(m, 0), "wind_direction", wrap, m),
                       F("x", num(0, 30, 1)), F("ta", num(-30, 40, 1, m), "air_temperature", c2k, m), F("rh", num(5, 100, 0, m), "relative_humidity", pct, m), F("p", num(900, 1050, 1, ("nan",)), "air_pressure", hpa, m))

    def header(self):
        return "\t".join(self.cols) + "\n"


class Fd12p(Fmt):
    name = "fd12p"
    multi = False
    sep = "   "
    cumulative = {"precipitation_amount": lambda x: x / 1000, "snowfall_amount": lambda x: x / 1000}

    def __init__(self):
        self.fields = (T("%d.%m.%Y"), T("%H:%M:%S"), F("x", const("FD")), F("x", word("100", "101")), F("v", num(50, 50000, 0, ("/////",)), "visibility", ident, ("/////",)), F("x", num(50, 50000, 0)), F("x", word("L", "S")),
                       F("s", num(0, 99, 0, ("//",)), "synop_WaWa", ident, ("//",)), F("x", num(0, 99, 0)), F("x", num(0, 99, 0)), F("rr", num(0, 20, 2, ("//////",)), "precipitation_rate", lambda x: x * MMH, ("//////",)),
                       F("ra", num(0, 60, 2, ("//////",)), "precipitation_amount", None, ("//////",)), F("sa", num(0, 300, 0, ("////",)), "snowfall_amount", None, ("////",)))

    def run(self, files, out, date=None, uuid=None, meta=None):
        from cloudnetpy.instruments import fd12p2nc
        return fd12p2nc(files[0], out, meta or self.meta(), uuid=uuid, date=date)


class RainE16(Fmt):
    name = "rain_e_h3-16"
    multi = False
    sep = ";"
    encoding = "latin-1"
    cumulative = {"rainfall_amount": lambda x: x / 1000}

    def __init__(self):
        tail = [F("x", g) for g in (num(0, 1, 0), num(0, 30), num(0, 30), num(0, 1, 0), num(0, 1, 0), num(0, 1, 0), const("60"), num(0, 9999, 0), const("rain[e]H3"), const("Lindenberg      "), const("MF   "), const("ACTRIS  "))]
        self.fields = tuple(self.lead() + [F("rr", num(0, 20, 3), "rainfall_rate", lambda x: x * MMH), F("ra", num(0, 600, 3), "rainfall_amount", None)] + tail + self.extra())

    def lead(self):
        return [T("%d.%m.%Y"), T("%H:%M:%S")]

    def extra(self):
        return []

    def run(self, files, out, date=None, uuid=None, meta=None):
        from cloudnetpy.instruments import rain_e_h32nc
        return rain_e_h32nc(files[0], out, meta or self.meta(), uuid=uuid, date=date)


class RainE22(RainE16):
    name = "rain_e_h3-22"

    def lead(self):
        return [T("%Y-%m-%d %H:%M:%S"), T(lambda t: "te:" + t.strftime("%Y.%m.%d")), T("%H:%M:%S")]

    def extra(self):
        return [F("x", const("        ")), F("x", const("850383.0067")), F("x", const("1.20")), F("x", const("1.55")), F("x", lambda r: f"{r.uniform(-9, 9):.2f}*{r.integers(16, 255):X}")]

    def header(self):
        return "datetime_utc;date;time;" + ";".join(["x"] * 19) + ";checksum\n"


# ---------------------------------------------------------------- disdrometers

def vec(n, g):
    return lambda rng: [g(rng) for _ in range(n)]


def spec(n):
    def g(rng):
        out = ["000"] * n
        for i in rng.integers(0, n, 6):
            out[i] = f"{rng.integers(0, 999):03d}"
        return out
    return g


def nconc(toks):
    return [None if float(x) == -9.999 else float(np.round(10 ** float(x))) for x in toks]


def fvel(toks):
    return [None if float(x) == 0 else float(x) for x in toks]


def mat(nd, nv):
    return lambda toks: np.array([float(x) for x in toks]).reshape(nd, nv)


def floats(toks):
    return [float(x) for x in toks]


def pf(key, name=None):
    """Parsivel fields by telegram number."""
    g, var, conv = {
        1: (num(0, 90, 3, width=8, zero=.3), "rainfall_rate", lambda x: x * MMH), 2: (num(0, 90, 2), None, None), 3: (num(0, 89, 0, width=2), "synop_WaWa", ident), 4: (num(0, 89, 0, width=2), "synop_WW", ident),
        5: (word("-RA", "RA", "NP"), None, None), 6: (word("R-", "C"), None, None), 7: (num(-9.999, 60, 3), "radar_reflectivity", ident), 8: (num(100, 20000, 0, width=5), "visibility", ident),
        9: (num(10, 60, 0, width=5), "interval", ident), 10: (num(20000, 23000, 0), "sig_laser", ident), 11: (num(0, 900, 0, width=5), "n_particles", ident), 12: (num(-20, 40, 0), "T_sensor", c2k),
        13: (const("451221"), None, None), 14: (const("2.11.6"), None, None), 15: (const("2.02.4"), None, None), 16: (num(0, 2, 2), "I_heating", ident), 17: (num(10, 24, 1), "V_power_supply", ident),
        18: (num(0, 3, 0), "state_sensor", ident), 22: (const("LINDENBERG"), None, None), 24: (num(0, 99, 2, width=7), None, None), 25: (num(0, 5, 0, width=3), "error_code", ident),
        26: (num(0, 20, 0, width=3), None, None), 27: (num(0, 20, 0, width=3), None, None), 28: (num(0, 20, 0, width=3), None, None), 34: (num(0, 9, 3), "kinetic_energy", ident),
        35: (num(0, 9, 3), "snowfall_rate", lambda x: x * MMH),
        90: (vec(32, lambda r: "-9.999" if r.random() < .6 else f"{r.uniform(0, 3):06.3f}"), "number_concentration", nconc), 91: (vec(32, lambda r: "00.000" if r.random() < .6 else f"{r.uniform(.1, 9):06.3f}"), "fall_velocity", fvel),
        93: (spec(1024), "data_raw", mat(32, 32)),
    }[key]
    dconv = {90: floats, 91: floats, 93: mat(32, 32)}.get(key, None)
    return F(name or str(key), g, var, conv, num=key, dconv=dconv)


class Parsivel(Fmt):
    telegram = None
    nodate_error = ("DisdrometerDataError",)
    min_records = 2
    dtelegram = None
    dsep = ";"

    def run(self, files, out, date=None, uuid=None, meta=None):
        from cloudnetpy.instruments import parsivel2nc
        return parsivel2nc(files, out, meta or self.meta(), uuid=uuid, date=date, telegram=self.telegram)

    def read(self, path):
        """disdronator reader"""
        from cloudnetpy.disdronator.parsivel import read_parsivel
        if self.dtelegram:
            return read_parsivel(path, telegram=self.dtelegram, field_separator=self.dsep)
        return read_parsivel(path)

    def read_expected(self, rec):
        out = {}
        for f, tok in zip(self.fields, rec["tok"]):
            if isinstance(f, T) or f.num is None or f.num in (13, 14, 15, 22, 23, 5, 6):
                continue
            out[f.num] = f.dconv(tok) if f.dconv else float(tok.replace(",", "."))
        return out


class ParsivelTelegram(Parsivel):
    name = "parsivel-telegram"
    sep = ";"
    telegram = (19, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 22, 24, 25, 90, 91, 93)
    dtelegram = ["%Y%m%d%H%M%S", *telegram[1:]]

    def __init__(self):
        self.fields = (T("%Y%m%d%H%M%S"), *(pf(k) for k in self.telegram[1:]))

    def line(self, rec):
        return super().line(rec) + ";"


class ParsivelTelegram2(Parsivel):
    name = "parsivel-telegram2"
    sep = ";"
    telegram = (21, 20, 1, None, 7, 8, 11, None, 17, 18, 93)
    dtelegram = ["%d.%m.%Y", "%H:%M:%S", *telegram[2:]]

    def __init__(self):
        self.fields = (T("%d.%m.%Y"), T("%H:%M:%S"), *(pf(k) if k else F("x", word("a", "17")) for k in self.telegram[2:]))

    def line(self, rec):
        return super().line(rec) + ";"


class ParsivelAsdo(Parsivel):
    name = "parsivel-asdo"
    sep = ";"
    encoding = "latin-1"
    cols = ((1, "Intensity of precipitation (mm/h)"), (2, "Precipitation since start (mm)"), (7, "Radar reflectivity (dBz)"), (8, "MOR Visibility (m)"), (10, "Signal amplitude of Laserband"),
            (11, "Number of detected particles"), (12, "Temperature in sensor (\xb0C)"), (16, "Heating current (A)"), (17, "Sensor voltage (V)"), (34, "Kinetic Energy"), (35, "Snow intensity (mm/h)"),
            (3, "Weather code SYNOP WaWa"), (5, "Weather code METAR/SPECI"), (6, "Weather code NWS"), (18, "Optics status"))

    def __init__(self):
        self.fields = (T("%Y/%m/%d"), T("%H:%M:%S"), *(pf(k) for k, _ in self.cols), F("sp", self.spectrum, "data_raw", self.unspec, num=93, dconv=self.unspec))

    @staticmethod
    def spectrum(rng):
        if rng.random() < .4:
            return ["<SPECTRUM>ZERO</SPECTRUM>"]
        s = ["" if x == "000" else str(int(x)) for x in spec(1024)(rng)]
        s[0] = "<SPECTRUM>" + s[0]
        return [*s, "</SPECTRUM>"]

    @staticmethod
    def unspec(toks):
        if len(toks) == 1:
            return np.zeros((32, 32))
        s = [toks[0].removeprefix("<SPECTRUM>"), *toks[1:-1]]
        return np.array([float(x) if x else 0 for x in s]).reshape(32, 32)

    def header(self):
        return ";".join(["Date", "Time", *(c for _, c in self.cols), "Spectrum"]) + "\n"


class ParsivelPyatmos(Parsivel):
    name = "parsivel-pyatmos"
    sep = ";"
    cols = ((1, "rain rate [mm/h]"), (2, "rain accum [mm]"), (3, "wawa"), (7, "Z [dBz]"), (8, "MOR visibility [m]"), (9, "sample interval [s]"), (10, "Signal amplitude"), (11, "Number of detected particles"),
            (12, "Temperature sensor [\xb0C]"), (13, "Serial number"), (14, "IOP firmware version"), (16, "Current heating system [A]"), (17, "Power supply voltage in the sensor [V]"), (18, "Sensor status"),
            (22, "Station name"), (24, "Rain amount absolute [mm]"), (25, "Error code"))

    def __init__(self):
        self.fields = (T("%Y-%m-%d %H:%M:%S"), *(pf(k) for k, _ in self.cols), pf(90), pf(91), pf(93))

    def header(self):
        return ";".join(["datetime_utc", *(c for _, c in self.cols), *(f"N{i:02}" for i in range(32)), *(f"v{i:02}" for i in range(32)), *(f"M_{i}_{j}" for i in range(32) for j in range(32))]) + "\n"


class ParsivelToa5(Parsivel):
    name = "parsivel-toa5"
    sep = ","
    cols = ((1, "rain_intensity"), (35, "snow_intensity"), (24, "precipitation"), (3, "weather_code_wawa"), (7, "radar_reflectivity"), (8, "mor_visibility"), (34, "kinetic_energy"), (10, "signal_amplitude"),
            (12, "sensor_temperature"), (26, "pbc_temperature"), (27, "right_temperature"), (28, "left_temperature"), (16, "heating_current"), (17, "sensor_voltage"), (18, "sensor_status"), (25, "error_code"),
            (11, "number_particles"))

    def __init__(self):
        self.fields = (TOAT, F("n", num(0, 9999, 0)), *(pf(k) for k, _ in self.cols), pf(90), pf(91), pf(93))

    def header(self):
        names = ["TIMESTAMP", "RECORD", *(c for _, c in self.cols), *(f"N({i + 1})" for i in range(32)), *(f"V({i + 1})" for i in range(32)), *(f"spectrum({i + 1})" for i in range(1024))]
        return '"TOA5","CR1000","CR1000","E5800","CR1000.Std","CPU:x.CR1","26653","Table2"\n' + ",".join(q(n) for n in names) + "\n" + ",".join(['""'] * len(names)) + "\n" + ",".join(['""'] * len(names)) + "\n"


class ParsivelOp4a(Parsivel):
    """Blocks of lines as recorded by FMI and University of Helsinki."""
    name = "parsivel-op4a"
    block = True
    nums = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 24, 25, 34, 35, 90, 91, 93)

    def __init__(self):
        self.fields = (T("%Y-%m-%d %H:%M:%S"), *(pf(k) for k in self.nums))

    def line(self, rec):
        rows = [f"[{rec['tok'][0]}", "TYP OP4A"]
        for k, tok in zip(self.nums, rec["tok"][1:]):
            rows.append(f"{k:02d}:" + (";".join(tok) + ";" if isinstance(tok, list) else tok))
        return "\n".join(rows) + "\n]"


class Rd80(Fmt):
    name = "rd80"
    sep = "\t"
    cols = ("YYYY-MM-DD", "hh:mm:ss", "Status", "Interval [s]", *(f"n{i + 1}" for i in range(20)), "RI [mm/h]", "RA [mm]", "RAT [mm]")

    def __init__(self):
        comma = lambda g: lambda rng: g(rng).replace(".", ",")
        self.fields = (T("%Y-%m-%d"), T("%H:%M:%S"), F("x", const("")), F("int", word("30", "60"), "interval", ident), F("n", vec(20, lambda r: str(int(r.integers(0, 200)) if r.random() < .4 else 0)), "_n", floats),
                       F("ri", comma(num(0, 20, 4)), "rainfall_rate", lambda x: x * MMH), F("ra", comma(num(0, 2, 4))), F("rat", comma(num(0, 90, 4))))

    def header(self):
        return "\t".join(self.cols) + "\n"

    def expected(self, rec):
        e = super().expected(rec)
        n, dt = np.array(e.pop("_n")), e["interval"]
        e["n_particles"] = float(n.sum())
        e["number_concentration"] = list(n / (disdroclass.RD80_AREA * dt * disdroclass.RD80_SPEED * disdroclass.RD80_WIDTH))
        z = float(np.sum(n * disdroclass.RD80_MID ** 6 / disdroclass.RD80_SPEED) / (disdroclass.RD80_AREA * dt))
        zdb = 10 * math.log10(z) if z > 0 else None
        e["radar_reflectivity"] = None if zdb is None or zdb < -10 else zdb
        return e

    def run(self, files, out, date=None, uuid=None, meta=None):
        from cloudnetpy.instruments import rd802nc
        return rd802nc(files, out, meta or self.meta(), uuid=uuid, date=date)

    def read(self, path):
        from cloudnetpy.disdronator.rd80 import read_rd80
        return read_rd80(path)

    def read_expected(self, rec):
        t = rec["tok"]
        dec = lambda s: float(s.replace(",", "."))
        return {"Interval [s]": float(t[3]), "n": floats(t[4]), "RI [mm/h]": dec(t[5]), "RA [mm]": dec(t[6]), "RAT [mm]": dec(t[7])}


def thies_fields():
    """Telegram 4 of Thies LPM after the timestamp-less start; number is LPM column no."""
    n = num
    cols = [
        (2, const("00"), None, None), (3, const("1025"), None, None), (4, const("2.52"), None, None), (5, "date", None, None), (6, "time", None, None), (7, n(0, 99, 0, width=2), None, None), (8, n(0, 99, 0, width=2), None, None),
        (9, word("NP   ", "RA   "), None, None), (10, n(0, 90, 3, width=7), None, None), (11, n(0, 99, 0, width=2), "synop_WW", ident), (12, n(0, 99, 0, width=2), "synop_WaWa", ident), (13, word("NP   ", "-RA  "), None, None),
        (14, n(0, 90, 3, width=7), "rainfall_rate_1min_total", lambda x: x * MMH), (15, n(0, 90, 3, width=7), "rainfall_rate", lambda x: x * MMH), (16, n(0, 90, 3, width=7), "rainfall_rate_1min_solid", lambda x: x * MMH),
        (17, n(0, 990, 2, width=7), None, None), (18, n(0, 50000, 0, width=5), "visibility", ident), (19, n(-9.8, 60, 1), "radar_reflectivity", ident), (20, n(0, 100, 0), "measurement_quality", ident),
        (21, n(0, 9, 1), "maximum_hail_diameter", ident), (22, n(0, 1, 0), "status_laser", ident), (23, n(0, 1, 0), "static_signal", ident),
    ]
    names = ["status_T_laser_analogue", "status_T_laser_digital", "status_I_laser_analogue", "status_I_laser_digital", "status_sensor_supply", "status_laser_heating", "status_receiver_heating", "status_temperature_sensor",
             "status_heating_supply", "status_heating_housing", "status_heating_heads", "status_heating_carriers", "status_laser_power", None]
    for i, nm in enumerate(names):
        cols.append((24 + i, n(0, 1, 0), nm, ident if nm else None))
    signed = lambda rng: f"{int(rng.integers(-20, 40)):+03d}"
    cols += [(38, signed, "T_interior", c2k), (39, n(0, 80, 0), "T_laser_driver", c2k), (40, n(500, 2000, 0, width=4), "I_mean_laser", lambda x: x / 100), (41, n(4005, 4015, 0), "V_control", ident),
             (42, n(2300, 6500, 0), "V_optical_output", ident), (43, n(200, 300, 0), "V_sensor_supply", lambda x: x / 10), (44, n(0, 500, 0, width=3), "I_heating_laser_head", ident),
             (45, n(0, 500, 0, width=3), "I_heating_receiver_head", ident), (46, n(-20, 40, 0), "T_ambient", c2k), (47, n(0, 998, 0), None, None), (48, n(0, 9998, 0), None, None), (49, n(0, 9998, 0), None, None),
             (50, n(0, 9998, 0), None, None), (51, n(0, 9999, 0, width=5), "n_particles", ident)]
    for k in range(52, 81):  # particle sums: count; volume pairs
        cols.append((k, n(0, 99, 0, width=5) if k % 2 == 0 else n(0, 9, 3, width=9), None, None))
    return cols


class Thies(Fmt):
    name = "thies"
    multi = False
    sep = ";"
    nodate_error = ("DisdrometerDataError", "ValidTimeStampError")
    lead = ()
    tail = ";"

    def __init__(self):
        fs = list(self.lead)
        for k, g, var, conv in thies_fields():
            if g == "date":
                fs.append(T("%d.%m.%y"))
            elif g == "time":
                fs.append(T("%H:%M:%S"))
            else:
                fs.append(F(str(k), g, var, conv, num=k))
        fs.append(F("spec", spec(440), "data_raw", mat(22, 20), num="spec"))
        fs.append(F("cs", lambda r: f"{r.integers(16, 255):02X}"))
        self.fields = tuple(fs)

    def line(self, rec):
        return super().line(rec) + self.tail

    def run(self, files, out, date=None, uuid=None, meta=None):
        from cloudnetpy.instruments import thies2nc
        return thies2nc(files[0], out, meta or self.meta(), uuid=uuid, date=date)

    def read(self, path):
        from cloudnetpy.disdronator.lpm import read_lpm
        return read_lpm(path)

    FILL = {18: 99999, 19: -9.9, 46: 99999, 47: 999, 48: 9999, 49: 9999, 50: 9999}

    def read_expected(self, rec):
        out = {}
        for f, tok in zip(self.fields, rec["tok"]):
            if isinstance(f, T) or f.num is None:
                continue
            if f.num == "spec":
                out.update({81 + i: float(x) for i, x in enumerate(tok)})
            elif f.num in range(52, 81) or f.num in (4, 9, 13):
                continue
            else:
                v = float(tok)
                out[f.num] = None if v == self.FILL.get(f.num) else v
        return out


class ThiesPyatmos(Thies):
    name = "thies-pyatmos"
    lead = (T("%Y-%m-%d %H:%M:%S"),)

    def header(self):
        return "Datetime [utc];" + ";".join(["x"] * 520) + "\n"


class ThiesToa5(Thies):
    name = "thies-toa5"

    def header(self):
        return '"TOA5","16165","CR6","16165","CR6.Std.12.02","CPU:x.CR6","44237","FTP_thies"\n"TIMESTAMP","RECORD","RawString"\n"TS","RN",""\n"","","Smp"\n'

    def line(self, rec):
        return f'"{rec["t"]:%Y-%m-%d %H:%M:%S}",{rec.get("n", 1)},"{super().line(rec)}"'


ALL = {c.name: c for c in (Palaiseau, Bucharest, Maido, Potenza, Granada, Juelich, Falkenberg, Kenttarova, Hyytiala, Galati, Lampedusa, Limassol, LAquila, Cluj, Fd12p, RainE16, RainE22,
                           ParsivelTelegram, ParsivelTelegram2, ParsivelAsdo, ParsivelPyatmos, ParsivelToa5, ParsivelOp4a, Rd80, Thies, ThiesPyatmos, ThiesToa5)}
RESOLUTION_MIN = {"ws-hyytiala": 60}
