"""A data portal in memory, for driving the command line interface."""
import dataclasses
import datetime
import gzip
import hashlib
import os
import threading
import time
import uuid
from pathlib import Path

import netCDF4
import numpy as np
from cloudnet_api_client import CloudnetAPIError
from cloudnet_api_client.containers import ExtendedProduct, Instrument, Model, Product, ProductMetadata, RawMetadata, Site

# product -> instruments it is made from (as the portal tells)
INSTRUMENTS = {
    "radar": ("mira-35", "mira-10", "rpg-fmcw-94", "rpg-fmcw-35", "basta", "copernicus", "galileo"),
    "lidar": ("pollyxt", "cl61d", "chm15k", "cl31", "cl51", "ct25k"),
    "disdrometer": ("parsivel", "thies-lnm"),
    "mwr": ("hatpro",),
    "mwr-l1c": ("hatpro",),
    "mrr": ("mrr-pro",),
    "weather-station": ("weather-station",),
}
SOURCES = {
    "categorize": ("radar", "lidar", "mwr", "disdrometer", "model"),
    **dict.fromkeys(("classification", "iwc", "lwc", "ier", "der", "drizzle"), ("categorize",)),
    "mwr-single": ("mwr-l1c",), "mwr-multi": ("mwr-l1c",), "epsilon-radar": ("radar", "model"),
}
EVAL = ("l3-cf", "l3-iwc", "l3-lwc")
OTHER = ("model", "doppler-lidar")
# what the converter of an instrument reads: several files, a folder of them or one (joined) file
FORM = {"mira": "files", "rpg": "folder", "basta": "one", "copernicus": "folder", "galileo": "folder", "parsivel": "files", "thies": "join", "pollyxt": "files", "cl61d": "bundle", "chm15k": "join-nc", "cl31": "join", "cl51": "join",
        "ct25k": "join", "hatpro": "folder", "mrr": "files", "weather": "files"}
CONVERTER = {"mira": "mira2nc", "rpg": "rpg2nc", "basta": "basta2nc", "copernicus": "copernicus2nc", "galileo": "galileo2nc", "parsivel": "parsivel2nc", "thies": "thies2nc", "pollyxt": "pollyxt2nc", "cl61d": "ceilo2nc", "chm15k": "ceilo2nc",
             "cl31": "ceilo2nc", "cl51": "ceilo2nc", "ct25k": "ceilo2nc", "hatpro": "hatpro2nc", "mrr": "mrr2nc", "weather": "ws2nc"}
SUFFIX = {"mira": ".mmclx", "rpg": ".LV1", "basta": ".nc", "copernicus": ".nc", "galileo": ".nc", "parsivel": ".csv", "thies": ".txt", "pollyxt": ".nc", "cl61d": ".nc", "chm15k": ".nc", "cl31": ".dat", "cl51": ".dat", "ct25k": ".dat",
          "hatpro": ".LWP", "mrr": ".nc", "weather": ".csv"}
DATE = datetime.date(2024, 6, 1)


def family(instrument_id):
    return next(k for k in FORM if instrument_id.startswith(k))


def uid(rng):
    return uuid.UUID(bytes=rng.bytes(16), version=4)


class World:
    def __init__(self, rng, root):
        self.rng, self.root = rng, Path(root)
        self.root.mkdir(parents=True)
        self.content = {}  # download url -> bytes
        self.raws, self.files_, self.cal, self.links = [], [], {}, {}
        kw = {"station_name": None, "dvas_id": None, "actris_id": None, "country": "Finland", "country_code": "FI", "country_subdivision_code": None, "type": frozenset({"cloudnet"}), "gaw": None}
        names = [("munich", "Munich"), ("ny-alesund", "Ny-Ålesund"), ("categorize", "Categorize Hill"), ("x.nc", "Dotted")]
        self.sites_ = [Site(id=i, human_readable_name=n, latitude=float(np.round(rng.uniform(-80, 80), 3)), longitude=float(np.round(rng.uniform(-180, 180), 3)), altitude=int(rng.integers(0, 3000)), **kw) for i, n in names]
        self.models_ = [Model(id=i, name=n, optimum_order=k, source_model_id=s, forecast_start=None, forecast_end=None)
                        for k, (i, n, s) in enumerate((("ecmwf", "ECMWF IFS", "ecmwf"), ("icon-iglo-12-23", "ICON-Iglo 12-23", "icon-iglo"), ("harmonie-fmi-6-11", "HARMONIE", "harmonie-fmi")))]
        self.calls, self.lock, self.delay, self.fail = [], threading.Lock(), {}, set()
        self.serial = 0

    def product_obj(self, p):
        kind = "evaluation" if p in EVAL else "model" if p == "model" else "instrument" if p in INSTRUMENTS or p == "doppler-lidar" else "geophysical"
        return ExtendedProduct(id=p, human_readable_name=p.title(), type=frozenset({kind}), experimental=False, source_instrument_ids=frozenset(INSTRUMENTS.get(p, ())), source_product_ids=frozenset(SOURCES.get(p, ())),
                               derived_product_ids=frozenset())

    def instrument(self, iid):
        self.serial += 1
        tail = uid(self.rng).hex[:16]
        self.stem = getattr(self, "stem", tail[:7])
        if self.rng.random() < 0.6:  # identifiers that look alike up to the last figure a file name shows
            tail = self.stem + "0123456789abcdef"[self.serial % 16] + tail[8:]
        pid = f"https://hdl.handle.net/21.12132/3.{tail}"
        return Instrument(instrument_id=iid, model=iid.upper(), type="x", name=f"{self.rng.choice(['FMI', 'TROPOS', 'LMU'])} {iid} no {self.serial}", uuid=uid(self.rng), pid=pid, owners=("FMI",), serial_number=None)

    def _meta(self, cls, name, data, site, date, **kw):
        u = uid(self.rng)
        url = f"https://cloudnet.fmi.fi/api/download/{'raw' if cls is RawMetadata else 'product'}/{u}/{name}"
        self.content[url] = data
        now = datetime.datetime(2024, 7, 1, tzinfo=datetime.timezone.utc)
        return cls(uuid=u, checksum=hashlib.sha256(data).hexdigest(), size=len(data), filename=name, download_url=url, measurement_date=date, created_at=now, updated_at=now, site=site, **kw)

    def add_raw(self, inst, site, date, name, data, status="uploaded"):
        m = self._meta(RawMetadata, name, data, site, date, status=status, instrument=inst, tags=frozenset())
        self.raws.append(m)
        return m

    def add_file(self, product, site, date, name, data, inst=None, model=None):
        po = self.product_obj(product)
        m = self._meta(ProductMetadata, name, data, site, date, product=Product(po.id, po.human_readable_name, po.type, False), instrument=inst, model=model, volatile=False, legacy=False, pid="", dvas_id=None, error_level=None, coverage=1.0,
                       timeliness="scheduled", format="HDF5", start_time=None, stop_time=None, s3key=None)
        self.files_.append(m)
        return m


def iso(d):
    return d if isinstance(d, datetime.date) else datetime.date.fromisoformat(d)


def listed(x):
    return x is None or isinstance(x, str) and {x} or set(x)


class Client:
    """the methods of the API client, answered from a World"""

    world = None

    def __init__(self, *a, **k):
        self.w = Client.world

    def sites(self, type=None):
        return list(self.w.sites_)

    def site(self, site_id):
        return next(s for s in self.w.sites_ if s.id == site_id)

    def models(self):
        return list(self.w.models_)

    def products(self, type=None):
        w = self.w
        return [Product(p.id, p.human_readable_name, p.type, False) for p in map(w.product_obj, (*INSTRUMENTS, *SOURCES, *EVAL, *OTHER))]

    def product(self, product_id):
        if product_id not in (*INSTRUMENTS, *SOURCES, *EVAL, *OTHER):
            raise CloudnetAPIError("no such product")
        return self.w.product_obj(product_id)

    def raw_files(self, site_id=None, date=None, instrument_id=None, instrument_pid=None, status=None, filename_prefix=None, filename_suffix=None):
        def ok(v, arg):
            return arg is None or v in ({arg} if isinstance(arg, str) else set(arg))
        return [m for m in self.w.raws if ok(m.site.id, site_id) and (date is None or m.measurement_date == iso(date)) and ok(m.instrument.instrument_id, instrument_id) and ok(m.instrument.pid, instrument_pid) and ok(m.status, status)
                and (filename_prefix is None or m.filename.startswith(filename_prefix)) and (filename_suffix is None or m.filename.endswith(filename_suffix))]

    def files(self, site_id=None, date=None, product_id=None, model_id=None, instrument_id=None, instrument_pid=None):
        def ok(v, arg):
            return arg is None or v in ({arg} if isinstance(arg, str) else set(arg))
        out = [m for m in self.w.files_ if ok(m.site.id, site_id) and (date is None or m.measurement_date == iso(date)) and ok(m.product.id, product_id) and (m.model is None or ok(m.model.id, model_id))
               and (instrument_id is None or m.instrument is not None and ok(m.instrument.instrument_id, instrument_id)) and (instrument_pid is None or m.instrument is not None and ok(m.instrument.pid, instrument_pid))]
        mods = [m for m in out if m.model is not None]
        if mods and model_id is None:  # the best one only
            best = min(mods, key=lambda m: m.model.optimum_order)
            out = [m for m in out if m.model is None or m is best]
        return out

    def calibration(self, instrument_pid, date):
        c = self.w.cal.get((instrument_pid, iso(date)))
        if c is None:
            raise CloudnetAPIError("no calibration")
        return {"data": dict(c)}

    def download(self, metadata, output_directory=".", concurrency_limit=5, progress=None, validate_checksum=False):
        metas = [metadata] if hasattr(metadata, "download_url") else list(metadata)
        out = Path(output_directory).resolve()
        os.makedirs(out, exist_ok=True)
        paths = []
        for m in metas:
            dest = out / m.download_url.split("/")[-1]
            paths.append(dest)
            same = dest.exists() and dest.stat().st_size == m.size
            with self.w.lock:
                self.w.calls.append(("skip" if same else "download", m, threading.get_ident()))
            if same:
                continue
            time.sleep(self.w.delay.get(m.download_url, 0))
            if m.download_url in self.w.fail:
                raise CloudnetAPIError("download failed: " + m.filename)
            dest.write_bytes(self.w.content[m.download_url])
        return paths


def raw_bytes(world, iid, token, date):
    """contents of a raw file, holding the token"""
    f = FORM[family(iid)]
    if f in ("bundle", "join-nc"):
        p = world.root / f"{uid(world.rng).hex}.nc"
        with netCDF4.Dataset(p, "w") as nc:
            nc.createDimension("time", 2)
            nc.createDimension("range", 3)
            t = nc.createVariable("time", "f8", ("time",))
            t.units = f"seconds since {date} 00:00:00 +00:00" if f == "join-nc" else "seconds since 1970-01-01 00:00:00"
            base = 0 if f == "join-nc" else (date - datetime.date(1970, 1, 1)).days * 86400
            t[:] = base + np.array([token * 10, token * 10 + 5])
            nc.createVariable("range", "f4", ("range",))[:] = [10, 20, 30]
            for v in ("x_pol", "p_pol", "beta_att"):
                nc.createVariable(v, "f8", ("time", "range"))[:] = token
            nc.createVariable("tilt_angle", "f4", ("time",))[:] = 0
            nc.date = str(date)
            nc.year, nc.month, nc.day = (np.int32(x) for x in (date.year, date.month, date.day))
        b = p.read_bytes()
        p.unlink()
        return b
    return f"raw {token}\n".encode()


def tokens_of(path):
    """the tokens held by a raw file, or by raw files joined together"""
    b = Path(path).read_bytes()
    if b[:2] == b"\x1f\x8b":
        return ["gz"]
    if b[:4] == b"\x89HDF" or b[:3] == b"CDF":
        with netCDF4.Dataset(path) as nc:
            v = np.asarray(nc["beta_att"][:, 0]) if "beta_att" in nc.variables else np.array([-1])
            u, n = np.unique(v, return_counts=True)
            return sorted(int(x) if k == 2 else f"{x}x{k}" for x, k in zip(u, n, strict=True))
    return [int(x.split()[1]) for x in b.decode("utf-8", "replace").splitlines() if x.startswith("raw ")]


def gz(b):
    return gzip.compress(b, mtime=0)


def replace_everywhere(table):
    """put stand-ins for functions in every loaded module of the package that refers to them"""
    import sys
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] != "cloudnetpy" or mod is None:
            continue
        for attr, val in list(vars(mod).items()):
            if callable(val) and id(val) in table:
                setattr(mod, attr, table[id(val)])


assert dataclasses
