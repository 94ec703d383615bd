"""C21: concatenating, bundling, truncating, updating and joining files: conservation of records."""
import datetime
import hashlib
import os

import netCDF4
import numpy as np
from numpy import ma

from ..runner import Obs

ID, LEVEL = "C21", "exploration"
RULE = ("generated file sets: 1-6 files, NETCDF4/CLASSIC, packed, integer, 3-D, scalar and range-only variables, missing pixels, empty files, files with another range grid, "
        "too many ranges, damaged compressed blocks, missing variables, arbitrary listing order, other days; every record of the output compared with the records of the "
        "inputs; non-trivial if records were compared; distinct by seed")
ASSUMPTIONS = ["files have the coordinate variables of the concatenation and the interpolation dimension and share units"]
MIN = {"concat_records": 1500, "concat_files": 120, "bundle": 20, "bundle_skipped": 10, "truncate": 30, "update_appended": 15, "update_none": 10, "text": 30,
       "regridded_files": 10, "damaged_skipped": 8, "empty_skipped": 10, "keep_list": 8, "expanded": 100, "packed_differently": 8, "update_overlap": 10}
NAMES = ("time", "data", "flag", "packed", "cube", "scalar", "gain", "vec")


def cases(tier, seed):
    n = 1440 if tier == "quick" else 9000
    return [{"seed": seed * 100000 + i, "m": ("concat", "concat", "update", "truncate", "bundle", "text")[i % 6]} for i in range(n)]


def digest(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    tmp = str(tmp)
    {"concat": concat, "update": update, "truncate": truncate, "bundle": bundle, "text": text}[spec["m"]](obs, rng, tmp)
    obs.nontrivial = True
    obs.sig = f"{spec['m']}-{spec['seed']}"
    obs.sample = {"mode": spec["m"], "observed": dict(obs.counts)}
    return obs


def content(rng, n, nr, t0, skip=()):
    t = np.round(t0 + np.cumsum(rng.uniform(1, 30, n)), 3)
    d = {"time": t, "range": np.round(rng.uniform(20, 60) + rng.uniform(10, 40) * np.arange(nr), 2),
         "data": ma.array(rng.normal(0, 10, (n, nr)).astype("f4"), mask=rng.random((n, nr)) < rng.choice([0, .2])),
         "flag": ma.array(rng.integers(0, 100, n).astype("i4"), mask=rng.random(n) < .1),
         "packed": ma.array(np.round(rng.uniform(-50, 50, (n, nr)), 1), mask=rng.random((n, nr)) < .1),
         "cube": rng.normal(0, 1, (n, nr, 3)).astype("f4"), "scalar": np.float64(rng.uniform(0, 90)), "gain": rng.uniform(0, 5, nr).astype("f4"),
         "vec": rng.uniform(0, 1, 3)}
    for k in skip:
        d.pop(k)
    return d


DIMS = {"time": ("time",), "range": ("range",), "data": ("time", "range"), "flag": ("time",), "packed": ("time", "range"), "cube": ("time", "range", "x"),
        "scalar": (), "gain": ("range",), "vec": ("x",)}


def write(path, d, fmt="NETCDF4", scale=0.1, offset=2.0, units="seconds since 2022-03-05 00:00:00", unlimited=True, attrs=None, swap=False, cdim="time"):
    with netCDF4.Dataset(path, "w", format=fmt) as nc:
        nc.createDimension(cdim, None if unlimited else len(d["time"]))
        nc.createDimension("range", len(d["range"]))
        nc.createDimension("x", 3)
        for k, v in (attrs or {"title": os.path.basename(path), "number": 3}).items():
            nc.setncattr(k, v)
        for k, v in d.items():
            dims = tuple(cdim if x == "time" else x for x in DIMS[k])
            if k == "packed":
                var = nc.createVariable(k, "i2", dims, zlib=True, fill_value=-32000)
                var.scale_factor = scale
                var.add_offset = offset
                var.comment = "packed values"
            else:
                vv = np.asarray(ma.getdata(v))
                if swap and k == "data":
                    dims, v = dims[::-1], v.T
                fill = {"f": -999.0, "i": -99}[vv.dtype.kind] if k in ("data", "flag") else None
                var = nc.createVariable(k, vv.dtype.str[1:], dims, zlib=vv.ndim > 0, fill_value=fill)
            var[:] = v
            if k == "time":
                var.units = units
            else:
                var.long_name = f"name of {k}"
    return path


def read(path):
    with netCDF4.Dataset(path) as nc:
        return ({k: ma.array(v[:]) for k, v in nc.variables.items()}, {k: v.dimensions for k, v in nc.variables.items()},
                {k: {a: v.getncattr(a) for a in v.ncattrs()} for k, v in nc.variables.items()}, {a: nc.getncattr(a) for a in nc.ncattrs()}, nc.data_model)


def eq(obs, key, got, exp, tol=0.0):
    got, exp = ma.array(got), ma.array(exp)
    if not obs.check(got.shape == exp.shape, f"{key}-shape", lambda: f"{got.shape} expected {exp.shape}"):
        return
    gm, em = ma.getmaskarray(got), ma.getmaskarray(exp)
    d = gm != em
    obs.check(not d.any(), f"{key}-missing", lambda: f"{int(d.sum())} values, first missing={bool(gm[d][0])}")
    ok = ~gm & ~em
    a, b = np.array(ma.filled(got, 0), float), np.array(ma.filled(exp, 0), float)
    d = ok & ~(np.abs(a - b) <= tol + 1e-12 * np.abs(b))
    obs.check(not d.any(), key, lambda: f"{int(d.sum())} values, first {a[d][0]} expected {b[d][0]}")


def corrupt_var(src, dst, rng):
    """Copies src and breaks zlib streams at random until some variable of dst cannot be read; returns whether it could."""
    raw = open(src, "rb").read()
    starts = [i for i in range(len(raw) - 2) if raw[i] == 0x78 and raw[i + 1] in (0x01, 0x5e, 0x9c, 0xda)]
    rng.shuffle(starts)
    for s in starts[:12]:
        b = bytearray(raw)
        b[s + 2:s + 8] = b"\xff" * 6
        with open(dst, "wb") as f:
            f.write(bytes(b))
        try:
            with netCDF4.Dataset(dst) as nc:
                t, r = nc["time"][:], nc["range"][:]
                sizes = nc["time"].size, nc["range"].size
                for k in nc.variables:
                    try:
                        nc[k][:]
                    except RuntimeError as e:
                        if "HDF error" in str(e):
                            return True
                del t, r, sizes
        except (OSError, RuntimeError):
            continue
    return False


def concat(obs, rng, tmp):
    from cloudnetpy import concat_lib
    from cloudnetpy.exceptions import ValidTimeStampError
    nf = int(rng.integers(1, 7))
    nr = int(rng.integers(2, 12))
    fmt = str(rng.choice(["NETCDF4", "NETCDF4_CLASSIC", "NETCDF4"]))
    scale, offset = 0.1, 2.0
    files = []
    t0 = 100.0
    for i in range(nf):
        u = rng.random()
        n = 0 if u < .12 and i else int(rng.integers(1, 15))
        r = int(rng.integers(2, 12)) if rng.random() < .2 and i else nr
        skip = [k for k in ("flag", "scalar", "packed", "gain") if rng.random() < .06]
        d = content(rng, n, r, t0, skip)
        if files and r == nr:
            d["range"] = files[0]["d"]["range"]
        t0 = (d["time"][-1] if n else t0) + 10
        sub = f"{tmp}/{rng.integers(0, 3)}"
        os.makedirs(sub, exist_ok=True)
        sc = 0.1 if rng.random() < .8 else 0.05
        p = write(f"{sub}/20220305_{i:02d}_x.nc", d, fmt, sc, offset)
        files.append({"p": p, "d": d, "scale": sc, "n": n, "damaged": False})
    if nf > 2 and rng.random() < .35:
        k = int(rng.integers(1, nf))
        if files[k]["n"] > 0 and corrupt_var(files[k]["p"], files[k]["p"] + "_", rng):
            os.replace(files[k]["p"] + "_", files[k]["p"])
            files[k]["damaged"] = True
        elif os.path.exists(files[k]["p"] + "_"):
            os.remove(files[k]["p"] + "_")
    order = [f["p"] for f in files]
    rng.shuffle(order)
    keep = None
    ignore = None
    if rng.random() < .3:
        keep = list(rng.choice(["data", "flag", "packed", "cube"], int(rng.integers(1, 4)), replace=False))
        obs.n("keep_list")
    if rng.random() < .2:
        ignore = list(rng.choice(["data", "flag", "scalar", "vec"], 1))
    new = {"title": "new title", "extra": 5} if rng.random() < .5 else None
    dig = {f["p"]: digest(f["p"]) for f in files}
    out = f"{tmp}/out.nc"
    used = concat_lib.concatenate_files(order, out, variables=keep, ignore=ignore, new_attributes=new)
    obs.check({p: digest(p) for p in dig} == dig, "input-modified", "an input file was changed")
    good = [f for f in files if f["n"]]
    obs.n("empty_skipped", sum(f["n"] == 0 for f in files))
    first = good[0]
    good = [f for f in good if not f["damaged"] or not needs_read_fail(f, keep, ignore, first)]
    obs.n("damaged_skipped", sum(f["damaged"] for f in files))
    obs.check([str(x) for x in used] == [f["p"] for f in good], "files-used", lambda: f"{[os.path.basename(x) for x in used]} expected {[os.path.basename(f['p']) for f in good]}")
    obs.n("concat_files", len(good))
    got, dims, at, gl, model = read(out)
    first = good[0]
    fd, nt = first["d"], sum(f["n"] for f in good)
    obs.n("concat_records", nt)
    want = [k for k in fd if not (keep is not None and "time" in DIMS[k] and k != "time" and k not in keep) and not (ignore and k in ignore)]
    obs.check(sorted(got) == sorted(want), "variables", lambda: f"{sorted(got)} expected {sorted(want)}")
    obs.check((model == "NETCDF4") == (fmt == "NETCDF4"), "format", lambda: f"{model} from {fmt}")
    _, _, at0, gl0, _ = read(first["p"])
    g = dict(gl0)
    g.update(new or {})
    obs.check({k: str(v) for k, v in gl.items()} == {k: str(v) for k, v in g.items()}, "global-attributes", lambda: f"{gl} expected {g}")
    rng0 = fd["range"]
    for k in want:
        if k not in got:
            continue
        obs.check({a: str(v) for a, v in at[k].items() if a != "_FillValue"} == {a: str(v) for a, v in at0[k].items() if a != "_FillValue"}, "variable-attributes", lambda k=k: f"{k}: {at[k]}")
        if k == "range":
            obs.check(dims[k] == ("range",), "range-dimension", str(dims[k]))
            eq(obs, "range", got[k], rng0)
            continue
        parts = []
        for f in good:
            src = f["d"]
            if k in src:
                v = ma.array(src[k])
                if "time" not in DIMS[k]:
                    obs.n("expanded")
                    v = ma.array(np.repeat(ma.getdata(v)[None], f["n"], axis=0), mask=np.repeat(ma.getmaskarray(v)[None], f["n"], axis=0))
                if "range" in DIMS[k] and len(src["range"]) != len(rng0):
                    x = src["range"]
                    idx = np.abs(x[:, None] - rng0[None, :]).argmin(axis=0)
                    v = v[:, idx].copy()
                    v[:, (rng0 < x.min()) | (rng0 > x.max())] = ma.masked
                parts.append(v)
            else:
                nd = [f["n"]] + [len(rng0) if x == "range" else 3 for x in DIMS[k] if x != "time"]
                parts.append(ma.masked_all(nd))
        exp = ma.concatenate(parts)
        obs.check(dims[k][0] == "time", "time-dimension", lambda k=k: f"{k}: {dims[k]}")
        eq(obs, f"values-{k}", got[k], exp, 0.051 if k == "packed" else 0.0)
    obs.n("regridded_files", sum(len(f["d"]["range"]) != len(rng0) for f in good[1:]))
    obs.n("packed_differently", sum("packed" in f["d"] and f["scale"] != first["scale"] for f in good[1:]))
    # nothing usable
    if rng.random() < .3:
        e = write(f"{tmp}/empty.nc", content(rng, 0, nr, 0))
        try:
            concat_lib.concatenate_files([e], f"{tmp}/none.nc")
            obs.bad("no-valid-files", "no error without usable files")
        except ValidTimeStampError:
            pass
    if rng.random() < .1:
        d = content(rng, 2, 4, 0)
        big = content(rng, 2, 10001, 50, ("cube", "packed"))
        a, b = write(f"{tmp}/a.nc", d), write(f"{tmp}/b.nc", big)
        used = concat_lib.concatenate_files([b, a], f"{tmp}/o2.nc")
        obs.check([str(u) for u in used] == [a], "huge-range", lambda: f"{used}")


def needs_read_fail(f, keep, ignore, first):
    """Does concatenation read the damaged variable?"""
    with netCDF4.Dataset(f["p"]) as nc:
        for k in nc.variables:
            if k not in first["d"] or k == "range" or (ignore and k in ignore):
                continue
            if keep is not None and "time" in DIMS[k] and k != "time" and k not in keep:
                continue
            try:
                nc[k][:]
            except RuntimeError:
                return True
    return False


def update(obs, rng, tmp):
    from cloudnetpy import concat_lib
    nr = int(rng.integers(2, 9))
    swap = rng.random() < .3
    d = content(rng, int(rng.integers(1, 20)), nr, 100)
    old = write(f"{tmp}/old.nc", d, swap=swap)
    cur = {k: ma.array(v) for k, v in d.items()}
    for step in range(3):
        u = rng.random()
        if u < .15:
            bad = f"{tmp}/bad.nc"
            open(bad, "wb").write(bytes(rng.integers(0, 255, 200, dtype=np.uint8)))
            h = digest(old)
            r = concat_lib.update_nc(old, bad)
            obs.check(r == 0, "update-invalid", lambda: f"returned {r}")
            eq(obs, "update-invalid-time", read(old)[0]["time"], cur["time"])
            del h
            continue
        t0 = float(cur["time"][-1] + rng.choice([-200.0, -60.0, 0.0, 5.0, 100.0]))
        new = content(rng, int(rng.integers(1, 20)), nr, t0, ["flag"] if rng.random() < .1 else [])
        p = write(f"{tmp}/new{step}.nc", new, swap=swap)
        h = digest(p)
        later = new["time"] > cur["time"][-1]
        r = concat_lib.update_nc(old, p)
        obs.check(r == int(later.any()), "update-return", lambda: f"returned {r}, {int(later.sum())} new records")
        obs.n("update_appended" if later.any() else "update_none")
        obs.n("update_overlap", later.any() and not later.all())
        obs.check(digest(p) == h, "update-new-modified", "the new file was changed")
        for k in cur:
            if "time" in DIMS[k]:
                add = ma.array(new[k])[later] if k in new else ma.masked_all((int(later.sum()),) + cur[k].shape[1:])
                cur[k] = ma.concatenate([cur[k], add])
        r2 = concat_lib.update_nc(old, p)
        obs.check(r2 == 0, "update-idempotent", lambda: f"second update returned {r2}")
        got = read(old)[0]
        for k, v in cur.items():
            g = got[k].T if swap and k == "data" else got[k]
            eq(obs, f"update-{k}", g, v, 0.051 if k == "packed" else 0.0)


def truncate(obs, rng, tmp):
    from cloudnetpy import concat_lib
    n, nr = int(rng.integers(1, 20)), int(rng.integers(2, 9))
    d = content(rng, n, nr, 100)
    swap = rng.random() < .3
    p = write(f"{tmp}/a.nc", d, fmt=str(rng.choice(["NETCDF4", "NETCDF4_CLASSIC"])), unlimited=bool(rng.random() < .5), swap=swap)
    with netCDF4.Dataset(p, "a") as nc:
        nc.createDimension("model_time", 5)
        nc.createVariable("model_time", "f4", ("model_time",))[:] = np.arange(5)
        nc.createVariable("model", "f4", ("model_time", "range"))[:] = np.arange(5 * nr).reshape(5, nr)
    h = digest(p)
    k = int(rng.integers(1, n + 4))
    concat_lib.truncate_netcdf_file(p, f"{tmp}/t.nc", k)
    obs.n("truncate")
    obs.check(digest(p) == h, "truncate-input-modified", "input changed")
    a, da, ata, ga, ma_ = read(p)
    b, db, atb, gb, mb = read(f"{tmp}/t.nc")
    obs.check(ma_ == mb and da == db, "truncate-layout", lambda: f"{mb} {db}")
    obs.check({x: str(v) for x, v in ga.items()} == {x: str(v) for x, v in gb.items()}, "truncate-global", "global attributes differ")
    for x in a:
        idx = tuple(slice(k) if q == "time" else slice(None) for q in da[x])
        eq(obs, f"truncate-{x}", b[x], a[x][idx])
        obs.check({q: str(v) for q, v in ata[x].items() if q != "_FillValue"} == {q: str(v) for q, v in atb[x].items() if q != "_FillValue"}, "truncate-attributes", x)


def bundle(obs, rng, tmp):
    from cloudnetpy import concat_lib
    from cloudnetpy.exceptions import ValidTimeStampError
    nr = int(rng.integers(2, 9))
    day = datetime.date(2022, 3, 5)
    files = []
    r0 = None
    for i in range(int(rng.integers(1, 7))):
        kind = str(rng.choice(["day", "day", "day", "other", "corrupt", "edge", "empty"])) if i else str(rng.choice(["day", "other"]))
        n = 0 if kind == "empty" else int(rng.integers(2, 10))
        t0 = {"day": 3600.0 * i, "other": 86400 * 2.0, "edge": 86400.0 - 20}.get(kind, 3600.0 * i)
        d = content(rng, n, nr, t0)
        r0 = d["range"] if r0 is None else r0
        d["range"] = r0
        p = f"{tmp}/b{i:02d}.nc"
        if kind == "corrupt":
            open(p, "wb").write(b"CDF\x05" + bytes(rng.integers(0, 255, 60, dtype=np.uint8)))
        else:
            write(p, d, units="seconds since 2022-03-05 00:00:00")
        days = {datetime.date(2022, 3, 5) + datetime.timedelta(days=int(t // 86400)) for t in d["time"]}
        files.append({"p": p, "d": d, "ok": kind != "corrupt" and day in days})
    obs.n("bundle")
    order = [files[0]] + [files[i] for i in rng.permutation(len(files) - 1) + 1]
    dig = {f["p"]: digest(f["p"]) for f in files}
    keep = ["data", "time"] if rng.random() < .5 else None
    out = f"{tmp}/o.nc"
    want = [f for f in order if f["ok"]]
    try:
        used = concat_lib.bundle_netcdf_files([f["p"] for f in order], day, out, variables=keep)
    except ValidTimeStampError:
        obs.check(not want and len(files) > 1, "bundle-error", "no valid timestamps reported although some files have them")
        obs.n("bundle_skipped", len(files))
        return
    obs.check({p: digest(p) for p in dig} == dig, "bundle-input-modified", "an input file was changed")
    if len(files) == 1:
        obs.check([str(u) for u in used] == [files[0]["p"]] and digest(out) == dig[files[0]["p"]], "bundle-single", "single file is not copied unchanged")
        return
    obs.n("bundle_skipped", len(files) - len(want))
    obs.check([str(u) for u in used] == [f["p"] for f in want], "bundle-used", lambda: f"{[os.path.basename(u) for u in used]} expected {[os.path.basename(f['p']) for f in want]}")
    got = read(out)[0]
    srt = sorted(want, key=lambda f: f["p"])
    for k in (("time", "data") if keep else NAMES):
        if "time" in DIMS[k]:
            eq(obs, f"bundle-{k}", got[k], ma.concatenate([ma.array(f["d"][k]) for f in srt]), 0.051 if k == "packed" else 0.0)


def text(obs, rng, tmp):
    from cloudnetpy import concat_lib
    ps, all_ = [], b""
    for i in range(int(rng.integers(0, 6))):
        b = bytes(rng.integers(0, 256, int(rng.choice([0, 1, 100, 70000])), dtype=np.uint8))
        p = f"{tmp}/x{i}"
        open(p, "wb").write(b)
        ps.append(p)
    rng.shuffle(ps)
    for p in ps:
        all_ += open(p, "rb").read()
    dig = {p: digest(p) for p in ps}
    concat_lib.concatenate_text_files(ps, f"{tmp}/o")
    obs.n("text", len(ps))
    obs.check(open(f"{tmp}/o", "rb").read() == all_, "text-bytes", "text concatenation is not byte exact")
    obs.check({p: digest(p) for p in dig} == dig, "text-input-modified", "an input file was changed")
