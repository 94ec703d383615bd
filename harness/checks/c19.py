"""C19: files hold exactly the data handed to the writer, with complete documented metadata."""
import contextlib
import datetime
import json
import os
import re
import types
import uuid as _uuid

import netCDF4
import numpy as np
from numpy import ma

from .. import gen, jobs
from ..runner import Obs

ID, LEVEL = "C19", "exploration"
RULE = ("arrays of all types, shapes, byte orders, masks, hidden values under the mask, own fill values, NaN and infinity written through the three writers and read back raw; every converter and product of the "
        "package run on generated inputs with the arrays recorded at the writer and compared with the file, and names, units, dimensions, types and global attributes compared with a reviewed table; distinct by kind, format and seed")
ASSUMPTIONS = ["real data do not equal the default fill value of their type", "integers fit into the declared type", "variables not yet in the reviewed table only need a unit and a name"]
MIN = {"arrays": 2500, "values": 150000, "masked": 20000, "hidden": 2000, "nan": 1500, "scalars": 150, "bigendian": 50, "attributes": 8000, "mismatch": 60, "level1b": 60, "products": 60, "copied": 300,
       "jobs": 120, "job_arrays": 1500, "job_values": 200000, "job_masked": 10000, "table": 1500, "globals": 1200, "uuid_given": 60, "uuid_fresh": 60, "time_axis": 120}
G = json.load(open(os.path.join(os.path.dirname(__file__), "..", "golden.json")))
TABLE = {(v[0], k): v for v in G["variables"] for k in v[6]}
SITES = ("Testsite", "Testville", "Mace Head", "Juelich")
HISTORY = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \+00:00 - \S.* file created( using .*)? *$")
NOT_ATTRS = ("variable", "name", "data", "data_type", "dimensions")


def cases(tier, seed):
    n, m = (900, 16) if tier == "quick" else (4000, 60)
    out = [{"seed": seed * 1000000 + i * 10, "kind": k} for i in range(n) for k in ("arrays",)]
    out += [{"seed": seed * 1000000 + i * 10 + 1, "kind": k} for i in range(n // 3) for k in ("level1b", "product")]
    out += [{"seed": seed * 1000000 + i * 100 + 50 + j, "kind": "job", "fmt": f"{k}:{x}"} for i in range(m) for j, (k, x) in enumerate(jobs.KINDS)]
    return out


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    {"arrays": arrays, "level1b": level1b, "product": product, "job": job}[spec["kind"]](obs, rng, spec, tmp)
    obs.sig = spec["kind"], spec.get("fmt"), spec["seed"]
    return obs


# ---- what the file should hold ---------------------------------------------------------------------
def snapshot(array):
    """state of an array object as handed to the writer"""
    x = array.data
    return {"name": array.name, "data": np.array(ma.getdata(x), copy=True), "mask": ma.getmaskarray(x).copy() if ma.isMaskedArray(x) else None, "type": array.data_type, "dims": array.dimensions,
            "attrs": {k: v for k, v in vars(array).items() if k not in NOT_ATTRS and v is not None}}


def same_file(obs, path, snaps, dims, tag, prefix="", renamed=True):
    with netCDF4.Dataset(path) as nc:
        obs.check(nc.data_model == "NETCDF4_CLASSIC", "format", f"{tag}: {nc.data_model}")
        for k, n in dims.items():
            obs.check(k in nc.dimensions and len(nc.dimensions[k]) == n, "dimension", f"{tag}: dimension {k} of {n} is {nc.dimensions.get(k)}")
        for s in snaps:
            if not obs.check(s["name"] in nc.variables, "absent", f"{tag}: {s['name']} is not in the file"):
                continue
            v = nc.variables[s["name"]]
            what = f"{tag}: {s['name']}"
            obs.n(prefix + "arrays")
            obs.check(v.dtype == np.dtype(s["type"]), "type", f"{what} is {v.dtype}, declared {s['type']}")
            want = () if s["dims"] is None else tuple(s["dims"])
            obs.check(v.dimensions == want, "dimensions", f"{what} has {v.dimensions}, declared {want}")
            v.set_auto_maskandscale(False)
            raw = np.asarray(v[:])
            v.set_auto_maskandscale(True)
            v.set_always_mask(True)
            read = v[:]
            data, mask = np.broadcast_to(s["data"].reshape(s["data"].shape), raw.shape) if s["data"].shape != raw.shape else s["data"], s["mask"]
            m = np.zeros(raw.shape, bool) if mask is None else np.broadcast_to(mask, raw.shape)
            with np.errstate(all="ignore"):
                expected = np.where(m, 0, data).astype(v.dtype)
            obs.n(prefix + "values", raw.size)
            obs.n(prefix + "masked", int(m.sum()))
            if mask is not None:
                fill = v.getncattr("_FillValue") if "_FillValue" in v.ncattrs() else None
                if obs.check(fill is not None, "no-fill-value", f"{what} has missing values but no fill value"):
                    obs.check(bool(np.all(raw[m] == fill)), "missing-as-number", lambda: f"{what}: missing pixels hold {raw[m][raw[m] != fill][:3]}")
                    obs.check(abs(float(fill)) > 1e4, "small-fill-value", f"{what}: fill value {fill}")
            ok = (raw == expected) | (m if v.dtype.kind != "f" else m | (np.isnan(raw) & np.isnan(expected)))
            if v.dtype.kind == "f":
                obs.n(prefix + "nan", int(np.isnan(expected).sum()))
            obs.check(bool(np.all(ok)), "value", lambda: f"{what}: {int((~ok).sum())} of {ok.size} values differ, {raw[~ok][:3]} instead of {expected[~ok][:3]}")
            rm = ma.getmaskarray(read)
            real = ~m & (np.isnan(raw) if v.dtype.kind == "f" else False)
            obs.check(bool(np.all((rm == m) | real)), "mask", lambda: f"{what}: {int((rm & ~m).sum())} pixels became missing, {int((m & ~rm).sum())} are not missing any more")
            got = {k: v.getncattr(k) for k in v.ncattrs() if k != "_FillValue"}
            attrs = dict(s["attrs"])
            if renamed and "unit" in attrs:
                attrs["units"] = attrs.pop("unit")
            obs.n("attributes", len(attrs))
            for k in sorted({*got, *attrs}):
                if k in got and k in attrs and isinstance(attrs[k], str):
                    obs.check(str(got[k]) == attrs[k], f"attribute:{k}", f"{what}: {k} is {got[k]!r}, declared {attrs[k]!r}")
                elif k in got and k in attrs:
                    obs.check(bool(np.all(np.asarray(got[k]) == np.asarray(attrs[k]))), f"attribute:{k}", f"{what}: {k} is {got[k]!r}, declared {attrs[k]!r}")
                else:
                    obs.bad(f"attribute:{k}", f"{what}: attribute {k} " + ("lost" if k in attrs else f"added: {got[k]!r}"))


# ---- arrays of all sorts -----------------------------------------------------------------------------
DIMS = ("time", "range", "height", "chirp_sequence")


def random_array(rng, dims, i, obs=None, names=None):
    from cloudnetpy.cloudnetarray import CloudnetArray
    from cloudnetpy.metadata import MetaData
    nd = int(rng.choice([0, 1, 1, 2, 2, 3]))
    d = tuple(str(x) for x in rng.choice(sorted(dims), min(nd, len(dims)), replace=False))
    sh = tuple(dims[k] for k in d)
    kind = rng.choice(["f4", "f8", ">f4", ">f8", "i2", ">i2", "i4", ">i4", "i8", "i1", "u1", "bool"])
    info = np.dtype(kind)
    size = int(np.prod(sh)) if sh else 1
    if info.kind == "f":
        x = (rng.choice([-1, 1], size) * 10.0 ** rng.uniform(-12, 12, size))
        x[rng.random(size) < .1] = 0
        for v in (np.nan, np.inf, -np.inf, -999.0, 9999.0):
            if rng.random() < .2:
                x[rng.random(size) < .1] = v
    elif kind == "bool":
        x = rng.random(size) < .5
    else:
        hi = {1: 100, 2: 30000}.get(info.itemsize, 2000000000)
        x = rng.integers(0 if info.kind == "u" else -hi, hi, size)
        x[rng.random(size) < .1] = 0
        if info.kind == "i" and rng.random() < .3 and info.itemsize > 1:
            x[rng.random(size) < .1] = -999
    x = x.astype(kind).reshape(sh)
    if obs:
        obs.n("bigendian", int(kind[0] == ">"))
    r = rng.random()
    how = ""
    if r < .6:
        m = rng.random(sh) < rng.choice([0, .1, .5, 1])
        hidden = rng.random()
        x = x.copy()
        if x.ndim and info.kind == "f" and hidden < .5:
            x[m] = rng.choice([np.nan, np.inf, 1e39 if info.itemsize == 8 else 3e38, -999.0])
            if obs:
                obs.n("hidden", int(m.sum()))
        x = ma.array(x, mask=m if rng.random() < .9 else (ma.nomask if not np.any(m) else m))
        if rng.random() < .3:
            x.fill_value = 0 if info.kind != "f" else float(rng.choice([0, -999.0, 1e20, np.nan]))
        if rng.random() < .2:
            x.harden_mask()
    if x.ndim == 2 and rng.random() < .4:
        x = x.T.copy().T if rng.random() < .5 else ma.array(np.repeat(ma.getdata(x), 2, axis=1)[:, ::2], mask=ma.getmaskarray(x)) if ma.isMaskedArray(x) else np.repeat(x, 2, axis=1)[:, ::2]
    if nd == 0 and not ma.isMaskedArray(x) and rng.random() < .7:
        how = "scalar"
        v = x.item()
        x = rng.choice(np.array([0, 1, 2, 3]))
        x = {0: float(v), 1: np.float32(v), 2: np.float64(v), 3: v}[int(x)] if info.kind == "f" else {0: int(v), 1: np.int32(v), 2: float(v), 3: v}[int(x)]
        if info.kind == "f" and np.isfinite(v) and rng.random() < .3:
            x = repr(float(v))
    dtype = None
    if rng.random() < .25:
        dtype = str(rng.choice(["f4", "f8"] if info.kind == "f" else ["i2", "i4", "f4", "f8"] if info.itemsize < 4 and kind != "bool" else ["i4", "f8"]))
        if how == "scalar" and isinstance(x, (float, str, np.floating)):
            dtype = "f8"
    name = names[i] if names else f"v{i}"
    a = CloudnetArray(x, name, units_from_user=str(rng.choice(["m", "1", "kg m-3"])) if rng.random() < .6 else None, dimensions=d or None, data_type=dtype, source="The source" if rng.random() < .3 else None)
    expected = {"name": name, "dims": d or None, "data": np.asarray(float(x) if isinstance(x, str) else ma.getdata(x)), "mask": ma.getmaskarray(x).copy() if ma.isMaskedArray(x) else None}
    e = expected["data"]
    expected["type"] = dtype or ("f4" if e.dtype.kind == "f" else "i2" if e.dtype.kind == "i" and e.dtype.itemsize == 2 else "i4")
    expected["attrs"] = {"units": a.units} | ({"source": a.source} if a.source else {})
    if rng.random() < .6:
        f = {k: f"text of {k}" for k in MetaData._fields if k != "dimensions" and rng.random() < .4}
        f.setdefault("long_name", "Long name")
        a.set_attributes(MetaData(**(f | {"dimensions": d or None})))
        expected["attrs"] |= f
    if obs and how == "scalar":
        obs.n("scalars")
    return a, expected


def arrays(obs, rng, spec, tmp):
    from cloudnetpy import output
    dims = {k: int(rng.integers(1, 14)) for k in DIMS}
    pairs = [random_array(rng, dims, i, obs) for i in range(int(rng.integers(4, 20)))]
    data = {f"key{i}": a for i, (a, _) in enumerate(pairs)}
    path, uid = tmp + "/a.nc", _uuid.uuid4()
    with output.init_file(path, dims, data, uid) as nc:
        nc.extra = "text"
    same_file(obs, path, [e for _, e in pairs], dims, "init_file")
    with netCDF4.Dataset(path) as nc:
        import cloudnetpy.version
        obs.check((nc.Conventions, nc.file_uuid, nc.cloudnetpy_version, nc.extra) == ("CF-1.8", str(uid), cloudnetpy.version.__version__, "text"), "standard-globals", f"{nc.ncattrs()}")
        obs.check(len(nc.variables) == len(pairs) and set(nc.dimensions) == set(dims), "extra-content", f"{list(nc.variables)} {list(nc.dimensions)}")
    # array that does not fit into its dimensions: an error, and no file
    if rng.random() < .5:
        from cloudnetpy.cloudnetarray import CloudnetArray
        k = str(rng.choice(DIMS))
        bad = CloudnetArray(np.arange(dims[k] + int(rng.integers(2, 4)), dtype="f4"), "bad", dimensions=(k,))
        path = tmp + "/b.nc"
        obs.n("mismatch")
        try:
            with output.init_file(path, dims, data | {"bad": bad}, uid):
                pass
            obs.bad("mismatch", f"array of {len(bad.data)} values was written along {k} of {dims[k]}")
        except (IndexError, ValueError):
            obs.check(not os.path.exists(path), "mismatch-file", "file left behind after an array did not fit")


# ---- level 1b and product writers ------------------------------------------------------------------
def level1b(obs, rng, spec, tmp):
    from cloudnetpy import output
    from cloudnetpy.cloudnetarray import CloudnetArray
    from cloudnetpy.instruments import instruments
    dims = {"time": int(rng.integers(1, 12)), "range": int(rng.integers(1, 9))}
    pairs = [random_array(rng, dims, i) for i in range(int(rng.integers(1, 8)))]
    data = {f"v{i}": a for i, (a, _) in enumerate(pairs)}
    snaps = [e for _, e in pairs]
    if rng.random() < .3:
        a, e = pairs[0]
        a.unit, e["attrs"]["unit"] = "furlong", "furlong"
    for k, n in dims.items():
        data[k] = CloudnetArray(np.sort(rng.uniform(0, 24, n)), k, dimensions=(k,), units_from_user="m", data_type="f8" if rng.random() < .5 else None)
        snaps.append(snapshot(data[k]))
    all_ = [v for v in vars(instruments).values() if isinstance(v, instruments.Instrument)]
    inst = all_[int(rng.integers(0, len(all_)))]
    day = datetime.date(int(rng.integers(1999, 2031)), int(rng.integers(1, 13)), int(rng.integers(1, 29)))
    site = str(rng.choice(["Testsite", "Ny-Ålesund", "Kenttärova", "A B"]))
    obj = types.SimpleNamespace(data=data, site_meta={"name": site}, instrument=inst, date=day)
    if rng.random() < .6:
        obj.serial_number = str(rng.choice(["A123", "7"])) if rng.random() < .7 else None
    if rng.random() < .5:
        obj.software = {"abc": "1.2", "def": "3"}
    if rng.random() < .3:
        obj.n_diameter, obj.n_velocity = 5, 6
    path, uid = tmp + "/l1.nc", _uuid.uuid4()
    output.save_level1b(obj, path, uid)
    obs.n("level1b")
    same_file(obs, path, snaps, dims | ({"diameter": 5, "velocity": 6, "nv": 2} if hasattr(obj, "n_diameter") else {}), "save_level1b")
    want = {"cloudnet_file_type": inst.domain, "year": f"{day.year}", "month": f"{day.month:02}", "day": f"{day.day:02}", "location": site, "file_uuid": str(uid), "Conventions": "CF-1.8",
            "source": " ".join(x for x in (inst.manufacturer, inst.model) if x) or inst.category.capitalize(),
            "title": f"{inst.model + ' ' + inst.category if inst.model else inst.category.capitalize()} from {site}", "references": "https://doi.org/10.21105/joss.02123"}
    if getattr(obj, "serial_number", None):
        want["serial_number"] = obj.serial_number
    if hasattr(obj, "software"):
        want |= {"abc_version": "1.2", "def_version": "3"}
    with netCDF4.Dataset(path) as nc:
        for k, v in want.items():
            obs.n("globals")
            obs.check(k in nc.ncattrs() and nc.getncattr(k) == v, f"global:{k}", f"save_level1b: {k} is {getattr(nc, k, None)!r}, expected {v!r}")
        obs.check(HISTORY.match(nc.history) and nc.history.endswith(f" - {inst.domain} file created"), "global:history", nc.history)
        extra = set(nc.ncattrs()) - set(want) - {"history", "cloudnetpy_version"}
        obs.check(not extra, "global:extra", f"{extra}")


PRODUCTS = {"classification": "Classification", "iwc": "Ice water content", "lwc": "Liquid water content", "der": "Droplet effective radius", "ier": "Ice effective radius", "drizzle": "Drizzle"}


def product(obs, rng, spec, tmp):
    from cloudnetpy import output
    from cloudnetpy.datasource import DataSource
    nt, nh = int(rng.integers(2, 15)), int(rng.integers(1, 10))
    src = tmp + "/cat.nc"
    extra = {}
    with gen._nc(src) as nc:
        gen._globals(nc, "categorize", "Radar A", gen.rand_uuid(rng), location="Testville")
        nc.createDimension("time", nt)
        nc.createDimension("height", nh)
        t = np.sort(rng.uniform(0, 24, nt))
        gen.put(nc, "time", t, ("time",), "hours since 2023-06-14 00:00:00 +00:00", dtype="f8" if rng.random() < .5 else "f4", axis="T")
        gen.put(nc, "height", np.cumsum(rng.uniform(10, 90, nh)), ("height",), "m", dtype="f4")
        for k in ("altitude", "latitude", "longitude"):
            vec = rng.random() < .4
            gen.put(nc, k, ma.array(rng.uniform(0, 80, nt), mask=rng.random(nt) < .2) if vec else float(rng.uniform(0, 80)), ("time",) if vec else (), "m", dtype="f4")
        for i in range(int(rng.integers(1, 5))):
            k, dt = f"extra{i}", str(rng.choice(["f4", "f8", "i4", "i2", "i1"]))
            d = [("time",), ("time", "height"), ("height",), ()][int(rng.integers(0, 4))]
            x = rng.integers(-100, 100, tuple({"time": nt, "height": nh}[q] for q in d))
            x = x / 8 if dt[0] == "f" else x
            v = nc.createVariable(k, dt, d, fill_value=[False, -99, None][int(rng.integers(0, 3))] if dt[0] != "f" or rng.random() < .5 else netCDF4.default_fillvals[dt])
            v.units, v.long_name, v.comment = "1", f"Extra {i}", "text" if rng.random() < .7 else ""
            for q, val in (("offset", 0), ("threshold", 0.0), ("valid_range", np.array([-100, 100], "f4")), ("flag_values", np.array([0], "i4"))):
                if rng.random() < .3:
                    setattr(v, q, val)
            v[:] = ma.array(x, mask=rng.random(x.shape) < .2) if "_FillValue" in v.ncattrs() else x
            extra[k] = v.dimensions
    with contextlib.closing(DataSource(src)) as obj:
        dims = {"time": nt, "height": nh}
        pairs = [random_array(rng, dims, i) for i in range(int(rng.integers(1, 6)))]
        obj.data = {f"v{i}": a for i, (a, _) in enumerate(pairs)}
        short = str(rng.choice(sorted(PRODUCTS)))
        wanted = tuple(k for k in extra if rng.random() < .7) + (("absent",) if rng.random() < .3 else ())
        if rng.random() < .3:  # an own variable of the same name is not overwritten by the copy
            a, e = random_array(rng, dims, 0, names=["extra0"])
            obj.data["extra0"] = a
            pairs.append((a, e))
            wanted = tuple({*wanted, "extra0"})
        path, uid = tmp + "/p.nc", _uuid.uuid4()
        output.save_product_file(short, obj, path, uid, copy_from_cat=wanted)
    obs.n("products")
    snaps = [e for _, e in pairs]
    same_file(obs, path, snaps, {"time": nt, "height": nh}, "save_product_file")
    own = {e["name"] for e in snaps}
    copies(obs, src, path, [k for k in ("altitude", "latitude", "longitude", "time", "height", *wanted) if k not in own and k != "absent"], "save_product_file")
    with netCDF4.Dataset(path) as nc, netCDF4.Dataset(src) as cat:
        obs.check(set(nc.variables) == own | {"altitude", "latitude", "longitude", "time", "height"} | {k for k in wanted if k != "absent"}, "variables", f"{sorted(nc.variables)}")
        want = {"cloudnet_file_type": short, "title": f"{PRODUCTS[short]} products from Testville", "location": "Testville", "file_uuid": str(uid), "Conventions": "CF-1.8", "source": cat.source,
                "year": cat.year, "month": cat.month, "day": cat.day, "source_file_uuids": cat.file_uuid}
        for k, v in want.items():
            obs.n("globals")
            obs.check(k in nc.ncattrs() and nc.getncattr(k) == v, f"global:{k}", f"save_product_file: {k} is {getattr(nc, k, None)!r}, expected {v!r}")
        obs.check(nc.references.startswith("https://doi.org/10.21105/joss.02123"), "global:references", nc.references)


def copies(obs, src, path, names, tag):
    with netCDF4.Dataset(src) as a, netCDF4.Dataset(path) as b:
        for k in names:
            if not obs.check(k in b.variables, "not-copied", f"{tag}: {k} of the source is not in the file"):
                continue
            x, y = a[k], b[k]
            for v in (x, y):
                v.set_auto_maskandscale(False)
            obs.n("copied")
            fa, fb = ({q: v.getncattr(q) for q in v.ncattrs()} for v in (x, y))
            p, q = np.asarray(x[:]), np.asarray(y[:])
            obs.check(x.dtype == y.dtype and x.dimensions == y.dimensions and p.tobytes() == q.tobytes(), "copy", f"{tag}: {k} differs from the source ({x.dtype} {x.dimensions} / {y.dtype} {y.dimensions})")
            obs.check({n: repr(v) for n, v in fa.items()} == {n: repr(v) for n, v in fb.items()}, "copy-attributes", f"{tag}: attributes of {k} are {fb}, source {fa}")


# ---- real converters and products --------------------------------------------------------------------
def job(obs, rng, spec, tmp):
    from cloudnetpy import output
    jobs.warm()
    kind, name = spec["fmt"].split(":")
    day = datetime.date(2025, int(rng.integers(1, 13)), int(rng.integers(2, 28)))
    j = jobs.prepare(rng, kind, name, tmp + "/in", day)
    out = tmp + "/out.nc"
    given = _uuid.uuid4() if rng.random() < .5 else None
    written = []
    init = output.init_file

    def spy(file_name, dimensions, cloudnet_arrays, uuid):
        written.append((str(file_name), dict(dimensions), [snapshot(a) for a in cloudnet_arrays.values()]))
        return init(file_name, dimensions, cloudnet_arrays, uuid)
    output.init_file = spy
    try:
        try:
            returned = j.run(out, given)
        except Exception:  # noqa: BLE001  some generated inputs have no usable data; judged by C23
            if os.path.exists(out):
                obs.bad("file-after-error", f"{j}: file left after an error")
            obs.n("job_errors")
            return
    finally:
        output.init_file = init
    obs.n("jobs")
    tag = str(j)
    if isinstance(returned, tuple):  # identifier and list of files used
        returned = returned[0]
    if given is not None:
        obs.n("uuid_given")
        obs.check(str(returned) == str(given), "uuid-returned", f"{tag}: returned {returned} for the requested {given}")
    else:
        obs.n("uuid_fresh")
        obs.check(_uuid.UUID(str(returned)).version == 4, "uuid-fresh", f"{tag}: returned {returned}")
    own = set()
    for path, dims, snaps in written:
        if os.path.abspath(path) == os.path.abspath(out):
            same_file(obs, out, snaps, dims, tag, "job_")
            own |= {s["name"] for s in snaps}
    metadata(obs, out, spec["fmt"], own, str(returned), day if kind in ("text", "nc", "mwrpy") else datetime.date(2023, 6, 14), tag)
    if kind == "product":
        with netCDF4.Dataset(out) as nc:
            names = [k for k in nc.variables if k not in own]
        copies(obs, j.inputs[0], out, names, tag)
        obs.check({"time", "height", "altitude", "latitude", "longitude"} <= {*names, *own}, "coordinates", f"{tag}: coordinates {names}")


def metadata(obs, path, fmt, own, uid, day, tag):
    import cloudnetpy.version
    title, ftype, refs = G["globals"][fmt]
    with netCDF4.Dataset(path) as nc:
        for k, v in nc.variables.items():
            obs.n("table")
            units = getattr(v, "units", None)
            row = TABLE.get((k, fmt))
            if row is None:
                if k in own:
                    obs.check(bool(units) and bool(getattr(v, "long_name", "")), "metadata", f"{tag}: {k} has units {units!r} and name {getattr(v, 'long_name', None)!r}")
                continue
            u = re.sub(r"\d{4}-\d\d-\d\d", "DATE", units or "")
            got = [u, getattr(v, "long_name", None), getattr(v, "standard_name", None), str(v.dtype), list(v.dimensions)]
            for what, g, r in zip(("units", "long_name", "standard_name", "type", "dimensions"), got, row[1:6]):
                obs.check(g == r, f"table:{what}:{fmt}:{k}", f"{tag}: {what} of {k} is {g!r}, documented {r!r}")
        a = {k: nc.getncattr(k) for k in nc.ncattrs()}
        t = nc["time"]
        obs.n("time_axis")
        obs.check(re.fullmatch(rf"hours since {day.isoformat()} 00:00:00 \+00:00", t.units) is not None, "time-units", f"{tag}: {t.units!r} for {day}")
        x = t[:]
        obs.check(not ma.getmaskarray(x).any() and bool(np.all(np.isfinite(ma.getdata(x)))) and x.min() >= 0 and x.max() <= 24.0001, "time-values", f"{tag}: times {x.min()} to {x.max()}")
    want = {"Conventions": "CF-1.8", "cloudnetpy_version": cloudnetpy.version.__version__, "cloudnet_file_type": ftype, "year": f"{day.year}", "month": f"{day.month:02}", "day": f"{day.day:02}", "file_uuid": uid}
    if refs != "-":
        want["references"] = refs
    for k, v in want.items():
        obs.n("globals")
        obs.check(str(a.get(k)) == v, f"global:{k}", f"{tag}: {k} is {a.get(k)!r}, expected {v!r}")
    site = next((s for s in SITES if s in title), None)
    loc = a.get("location", "")
    obs.check(bool(loc) and loc in a.get("title", ""), "global:location", f"{tag}: location {loc!r}, title {a.get('title')!r}")
    if fmt.startswith("nc:") and " " in a.get("source", "") + title.split(" from ")[0]:  # several models of an instrument
        words, model = title.split(" from ")[0].split(" "), a.get("title", "").split(" ")[0]
        if words[0] in ("Microwave",):
            model = words[0]
        else:
            obs.check(model in a["source"], "global:title", f"{tag}: title {a.get('title')!r} of {a['source']!r}")
        title = title.replace(words[0], model, 1)
    head = title.split(site)[0] if site else title.rsplit(" from ", 1)[0]
    obs.check(a.get("title", "").startswith(head), "global:title", f"{tag}: title {a.get('title')!r}, documented {title!r}")
    obs.check(bool(a.get("source")), "global:source", f"{tag}: source {a.get('source')!r}")
    obs.check(bool(HISTORY.match(a.get("history", "").split("\n")[0])), "global:history", f"{tag}: history {a.get('history')!r}")
