"""C30: microwave radiometer files and products hold what the retrieval library computes, nothing else."""
import datetime
import os
import shutil
import uuid as _uuid

import netCDF4
import numpy as np
from numpy import ma

from .. import gen, mwr
from ..runner import Obs

ID, LEVEL = "C30", "exploration"
RULE = ("raw HATPRO files converted to Level 1c and to single-pointing, multiple-pointing and LHUMPRO products with real retrieval coefficients; every variable compared with a direct call of the retrieval library on the same files; "
        "drawn coefficients, offsets, scans, flags, missing values; distinct by kind and seed")
ASSUMPTIONS = ["the retrieval library mwrpy computes what it should", "coefficient files are downloaded intact"]
MIN = {"l1c": 60, "l1c_values": 30000, "lidar": 20, "products": 120, "single": 40, "multi": 30, "lhumpro": 40, "product_values": 60000, "flagged": 30, "part_flagged": 30, "offsets": 15, "downloads": 400, "attributes": 1500, "no_pid": 20}
# units, long name and standard name given to variables of the products
STANDARD = {
    "lwp": ("kg m-2", "Liquid water path", "atmosphere_cloud_liquid_water_content"),
    "iwv": ("kg m-2", "Integrated water vapour", "atmosphere_mass_content_of_water_vapor"),
    "temperature": ("K", "Temperature", "air_temperature"),
    "azimuth_angle": ("degree", "Azimuth angle", "sensor_azimuth_angle"),
    "latitude": ("degree_north", "Latitude of site", "latitude"),
    "longitude": ("degree_east", "Longitude of site", "longitude"),
    "altitude": ("m", "Altitude of site", "altitude"),
}


def cases(tier, seed):
    n = 240 if tier == "quick" else 900
    out = [{"seed": seed * 100000 + i * 10, "kind": "l1c"} for i in range(n)]
    out += [{"seed": seed * 100000 + i * 10 + j, "kind": k} for i in range(n // 2) for j, k in enumerate(("single", "multi", "lhumpro"), 1)]
    return out


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    tmp = str(tmp)
    day = datetime.date(2025, int(rng.integers(1, 13)), int(rng.integers(2, 28)))
    (l1c if spec["kind"] == "l1c" else product)(obs, rng, spec["kind"], tmp, day)
    obs.sig = f"{spec['kind']}:{spec['seed']}"
    obs.sample = {"kind": spec["kind"], "date": str(day)}
    return obs


def load(path):
    with netCDF4.Dataset(path) as nc:
        return {"vars": {k: (v[:], v.dimensions, str(v.dtype), {a: v.getncattr(a) for a in v.ncattrs()}) for k, v in nc.variables.items()}, "attrs": {a: nc.getncattr(a) for a in nc.ncattrs()}}


def same(obs, key, name, x, y, label, tol=0.0):
    """x from the file, y from the library"""
    x, y = ma.array(x), ma.array(y)
    x, y = (a.astype(float) if a.dtype.kind in "fiu" else a for a in (x, y))
    if not obs.check(x.shape == y.shape, key + "-shape", lambda: f"{label}: {name} has shape {x.shape}, retrieved {y.shape}"):
        return
    obs.n("l1c_values" if key.startswith("l1c") else "product_values", int(x.size))
    mx, my = ma.getmaskarray(x), ma.getmaskarray(y) | ~np.isfinite(ma.getdata(y))
    mx = mx | ~np.isfinite(ma.getdata(x))
    obs.check(np.array_equal(mx, my), key + "-missing", lambda: f"{label}: {name} missing at {int(mx.sum())}, retrieved data missing at {int(my.sum())} of {x.size}")
    ok = ~mx & ~my
    a, b = ma.getdata(x)[ok], ma.getdata(y)[ok]
    bad = np.abs(a - b) > tol + 2e-7 * np.abs(b)
    obs.check(not bad.any(), key + "-value", lambda: f"{label}: {name} is {a[bad][:3]}, retrieved {b[bad][:3]} ({int(bad.sum())} of {x.size})")


def write_lidar(rng, path, day, base):
    n = 300
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        gen._globals(nc, "lidar", "Lufft CHM15k", gen.rand_uuid(rng), location="Testsite")
        nc.year, nc.month, nc.day = f"{day.year}", f"{day.month:02}", f"{day.day:02}"
        nc.createDimension("time", n)
        nc.createDimension("range", 40)
        gen.put(nc, "time", np.linspace(0, 23.99, n), ("time",), f"hours since {day} 00:00:00 +00:00", dtype="f8")
        h = np.arange(40) * 100.0 + 50
        gen.put(nc, "range", h, ("range",), "m")
        gen.put(nc, "height", h + 20, ("range",), "m")
        b = np.where(np.abs(h - base) < 150, 1e-4, 1e-7) * np.ones((n, 1))
        gen.put(nc, "beta", ma.array(b, mask=rng.random(b.shape) < .1), ("time", "range"), "sr-1 m-1")
        return nc.source, nc.history


def l1c(obs, rng, kind, tmp, day):
    from cloudnetpy.instruments.hatpro import hatpro2l1c
    from mwrpy.level1.write_lev1_nc import lev1_to_nc

    from .. import binfmt
    fmt, recs, arg = mwr.raw(rng, tmp, day, scan=rng.random() < .25)
    site = dict(fmt.site, coefficientFiles=binfmt.coefficients())
    if fmt.offset:
        site["time_offset"] = fmt.offset
    itype = "hatpro"
    lidar = head = None
    if rng.random() < .35:
        lidar = tmp + "/lidar.nc"
        head = write_lidar(rng, lidar, day, float(rng.choice([600, 2500, 50000])))
        obs.n("lidar")
    given = _uuid.uuid4() if rng.random() < .6 else None
    dated = day if rng.random() < .7 else None
    out = tmp + "/l1c.nc"
    with binfmt.time_variables_only():
        u = hatpro2l1c(arg, out, dict(site), instrument_type=itype, lidar_file=lidar, uuid=given, date=str(dated) if dated and rng.random() < .5 else dated)
        ref = lev1_to_nc("1C01", str(arg), instrument_type=itype, lidar_path=lidar, coeff_files=site["coefficientFiles"], instrument_config=site, date=dated, time_offset=site.get("time_offset"))
    obs.n("l1c")
    f = load(out)
    label = f"Level 1c ({itype}{', lidar' if lidar else ''}{', scan' if fmt.scan else ''}, version {fmt.version})"
    want = {k: v.data for k, v in ref.data.items() if k not in ("time_bnds",)}
    for k, x in want.items():
        if not obs.check(k in f["vars"], "l1c-lost", lambda k=k: f"{label}: {k} is not in the file"):
            continue
        y = f["vars"][k][0]
        if k == "time":
            x = (np.asarray(x, float) - datetime.datetime(day.year, day.month, day.day, tzinfo=datetime.timezone.utc).timestamp()) / 3600
            same(obs, "l1c-time", k, y, x, label, 1e-6)
        elif k in ("latitude", "longitude", "altitude"):
            continue  # C17
        else:
            same(obs, "l1c", k, y, x, label, 0 if np.asarray(x).dtype.kind in "iu" else 1e-30)
    for k, z in (("elevation_angle", "zenith_angle"), ("ir_elevation_angle", "ir_zenith_angle")):
        obs.check((z in f["vars"]) == (k in want), "l1c-zenith", lambda z=z: f"{label}: {z}")
        if k in want and z in f["vars"]:
            same(obs, "l1c-zenith", z, f["vars"][z][0], 90 - np.asarray(want[k], float), label, 1e-4)
    made = set(f["vars"]) - set(want) - {"zenith_angle", "ir_zenith_angle", "latitude", "longitude", "altitude"}
    obs.check(not made, "l1c-made-up", lambda: f"{label}: {sorted(made)}")
    import mwrpy.version
    a = f["attrs"]
    model = "HATPRO"
    expect = {"cloudnet_file_type": "mwr-l1c", "title": f"{model} microwave radiometer Level 1c from Testsite", "mwrpy_version": mwrpy.version.__version__, "mwrpy_coefficients": ", ".join(fmt.site["coefficientLinks"]),
              "file_uuid": str(given or u), "year": f"{day.year}", "month": f"{day.month:02}", "day": f"{day.day:02}", "location": "Testsite"}
    check_attrs(obs, label, a, expect, "l1c")
    own = f"RPG-Radiometer Physics {model}"
    obs.check(a["source"] == (f"{own}\n{head[0]}" if lidar else own), "l1c-source", lambda: f"{label}: {a['source']!r}")
    h = a["history"].split("\n", 1)
    obs.check("mwr-l1c" in h[0] and (h[1] if len(h) > 1 else None) == (head[1] if lidar else None), "l1c-history", lambda: f"{label}: {a['history']!r}")


def check_attrs(obs, label, a, expect, key):
    for k, v in expect.items():
        obs.n("attributes")
        obs.check(str(a.get(k)) == str(v), f"{key}-attribute:{k}", lambda k=k, v=v: f"{label}: {k} is {a.get(k)!r}, expected {v!r}")


def product(obs, rng, kind, tmp, day):
    import mwrpy.version
    from cloudnetpy.exceptions import ValidTimeStampError
    pid = rng.random() < .7
    if not pid:
        obs.n("no_pid")
    path = mwr.level1c(rng, tmp, day, scan=kind == "multi" or rng.random() < .2, pid=pid)
    flagged = rng.random() < .25
    if flagged:
        mwr.flag_everything(path)
    elif rng.random() < .6:
        with netCDF4.Dataset(path, "a") as nc:
            q = nc["quality_flag"]
            rows = rng.random(q.shape[0]) < .4
            x = q[:]
            x[rows] = 8
            q[:] = x
        obs.n("part_flagged")
    with netCDF4.Dataset(path) as nc:
        head = {k: nc.getncattr(k) for k in nc.ncattrs()}
    links = head["mwrpy_coefficients"].split(", ")
    coeffs = []
    os.makedirs(tmp + "/coeff")
    known = {os.path.basename(p): p for s in mwr.SITES for p in mwr.coefficient_files(s)}
    for x in links:
        coeffs.append(tmp + "/coeff/" + x.split("/")[-1])
        shutil.copy(known[x.split("/")[-1]], coeffs[-1])
    kw, offset = {}, (None, None)
    if kind != "multi" and rng.random() < .5:
        offset = tuple(None if rng.random() < .2 else float(np.round(rng.uniform(-.02, .05), 4)) for _ in range(2))
        kw["lwp_offset"] = offset
        obs.n("offsets")
    label = f"{kind} product (offset {offset}, {'everything' if flagged else 'not everything'} flagged)"
    before = open(path, "rb").read()
    e = r = None
    try:
        mwr.reference(kind, path, tmp + "/ref.nc", coeffs, offset)
    except Exception as x:  # noqa: BLE001
        e = x
    ref = None if e is not None else load(tmp + "/ref.nc")
    given = _uuid.uuid4() if rng.random() < .6 else None
    out = tmp + "/out.nc"
    err = None
    with mwr.served() as s:
        from cloudnetpy.products import mwr_tools
        try:
            r = getattr(mwr_tools, "generate_mwr_" + kind)(path, out, given, **kw) if rng.random() < .5 else getattr(mwr_tools, "generate_mwr_" + kind)(mwr_l1c_file=path, output_file=out, uuid=given, **kw)
        except ValidTimeStampError as x:
            err = x
    obs.n("products")
    obs.n(kind)
    obs.n("downloads", len(s.asked))
    obs.check(sorted(s.asked) == sorted(links), "downloads", lambda: f"{label}: asked for {s.asked}, the file names {links}")
    obs.check(open(path, "rb").read() == before, "input-modified", lambda: f"{label}: Level 1c file changed")
    name = "temperature" if kind == "multi" else "lwp"
    usable = ref is not None and bool(np.any(ma.filled(ref["vars"][name + "_quality_flag"][0] == 0, False)))
    if flagged:
        obs.n("flagged")
    if not usable:
        obs.check(err is not None and not os.path.exists(out), "flagged-accepted", lambda: f"{label}: every {name} is flagged or there are no data, but {'a file was written' if os.path.exists(out) else 'no error was raised'}")
        return
    if not obs.check(err is None and os.path.exists(out), "refused", lambda: f"{label}: {err!r} although {name} has unflagged data"):
        return
    f = load(out)
    obs.check(set(f["vars"]) == set(ref["vars"]), "variables", lambda: f"{label}: {sorted(set(f['vars']) ^ set(ref['vars']))} differ")
    for k in f["vars"]:
        if k not in ref["vars"]:
            continue
        x, y = f["vars"][k], ref["vars"][k]
        obs.check(x[1:3] == y[1:3], "kind", lambda k=k, x=x, y=y: f"{label}: {k} is {x[1:3]}, retrieved {y[1:3]}")
        same(obs, "product", k, x[0], y[0], label)
        a = dict(y[3])
        if k in STANDARD:
            a |= dict(zip(("units", "long_name", "standard_name"), STANDARD[k], strict=True))
        if k == "time":
            obs.check(x[3].get("units") == f"hours since {day} 00:00:00 +00:00", "time-units", lambda x=x: f"{label}: {x[3].get('units')!r}")
            continue
        obs.n("attributes", len(a))
        b = {q: v for q, v in x[3].items()}
        obs.check({q: repr(v) for q, v in a.items()} == {q: repr(v) for q, v in b.items()}, "variable-attributes", lambda k=k, a=a, b=b: f"{label}: {k} has {b}, expected {a}")
    words = "multiple-pointing" if kind == "multi" else "single-pointing"
    expect = {"cloudnet_file_type": "mwr-multi" if kind == "multi" else "mwr-single", "title": f"MWR {words} from {head['location']}", "mwrpy_version": mwrpy.version.__version__, "source_file_uuids": head["file_uuid"], "file_uuid": str(given or r),
              "Conventions": "CF-1.8", **{k: head[k] for k in ("year", "month", "day", "location", "source")}}
    if pid:
        expect["instrument_pid"] = head["instrument_pid"]
    check_attrs(obs, label, f["attrs"], expect, "product")
    h = f["attrs"]["history"].split("\n", 1)
    obs.check(f"MWR {words} file created" in h[0] and h[1:] == [head["history"]], "product-history", lambda: f"{label}: {f['attrs']['history']!r}, Level 1c {head['history']!r}")
    left = set(f["attrs"]) - set(expect) - {"history", "cloudnetpy_version", "instrument_pid"}
    obs.check(not left, "product-attributes", lambda: f"{label}: unexpected {sorted(left)}")
    obs.check(given is None or str(r) == str(given), "product-uuid", lambda: f"{label}: returned {r}, asked for {given}")
