"""C20: global and variable-level provenance of produced files names exactly their inputs."""
import datetime
import os
import re
import shutil
import uuid as _uuid

import netCDF4
import numpy as np

from .. import catgen, gen, l3gen, mie, nccase, textfmt
from .. import textconv as tc
from ..runner import Obs

ID, LEVEL = "C20", "exploration"
RULE = ("chains instrument files -> categorize -> retrievals, dissipation rate of radar and Doppler lidar, level 3 and converters of all formats, with input files of amended "
        "identifiers (absent, shared), histories (several lines, time zones, repeated and malformed lines), sources (several lines), instrument identifiers, sites and dates; "
        "attributes of the output compared with the set of files really given; distinct by kind and seed")
ASSUMPTIONS = ["the last line of a model file's history is its own entry", "inputs carry a source attribute", "histories have no blank lines"]
MIN = {"chains": 70, "products": 300, "uuids": 500, "no_uuid": 40, "shared": 20, "history_lines": 1500, "malformed": 60, "duplicate_lines": 60, "zones": 100, "pids": 150, "variable_sources": 600,
       "disdrometer_unusable": 20, "epsilon_radar": 30, "epsilon_lidar": 25, "l3": 50, "converted": 150, "uuid_given": 200, "uuid_fresh": 200, "multi_source": 40, "second_run": 60}
OWN = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \+00:00 - ")
TYPES = ("classification", "iwc", "lwc", "der", "ier", "drizzle")
VARS = {"radar": ("v", "width", "v_sigma", "ldr", "Z", "sldr", "radar_frequency", "nyquist_velocity"), "lidar": ("beta", "lidar_wavelength"), "mwr": ("lwp",),
        "model": ("uwind", "vwind", "Tw", "q", "pressure", "temperature")}


def cases(tier, seed):
    n = 120 if tier == "quick" else 900
    out = [{"seed": seed * 100000 + i * 10, "kind": "chain"} for i in range(n)]
    for j, (k, m) in enumerate((("epsilon_radar", 60), ("epsilon_lidar", 50), ("l3", 100)), 1):
        m = m if tier == "quick" else m * 8
        out += [{"seed": seed * 100000 + i * 10 + j, "kind": k} for i in range(m)]
    names = [("nc", f) for f in nccase.NAMES] + [("text", f) for f in sorted(textfmt.ALL)]
    m = 10 if tier == "quick" else 60
    out += [{"seed": seed * 100000 + i * 100 + 50 + j, "kind": k, "fmt": f} for i in range(m) for j, (k, f) in enumerate(names)]
    return out


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    os.environ["TZ"] = "UTC"
    {"chain": chain, "epsilon_radar": epsilon_radar, "epsilon_lidar": epsilon_lidar, "l3": level3}.get(spec["kind"], lambda *a: converter(*a, spec))(obs, rng, tmp)
    obs.sig = f"{spec['kind']}{spec.get('fmt', '')}:{spec['seed']}"
    obs.nontrivial = obs.counts.get("uuids", 0) + obs.counts.get("converted", 0) > 0
    obs.sample = {"kind": spec["kind"], **{k: obs.counts[k] for k in ("uuids", "history_lines") if k in obs.counts}}
    return obs


# ------------------------------------------------------------------ amended inputs
def line(rng, obs, what):
    t = datetime.datetime(2023, 6, 15) + datetime.timedelta(seconds=int(rng.integers(-200000, 4000000)))
    tz = "+00:00"
    if rng.random() < .25:
        tz = str(rng.choice(["+02:00", "-09:30", "+1200", "+0000"]))
        obs.n("zones")
    return f"{t:%Y-%m-%d %H:%M:%S} {tz} - {what}"


POOL = ["radar file created", "raw data read - twice", "corrected by hand", "ecmwf file created", "nothing"]


def history(rng, obs, shared):
    n = int(rng.choice([1, 1, 2, 4, 7]))
    out = [line(rng, obs, str(rng.choice(POOL)) + f" {rng.integers(0, 1000)}") for _ in range(n)]
    if rng.random() < .25:
        out.insert(int(rng.integers(0, n + 1)), str(rng.choice(["manual edit", "2023-13-45 25:00:00 +00:00 - wrong", "Thu Jun 15 2023: ncatted -a units", "2023-06-14 - no time"])))
        obs.n("malformed")
    if rng.random() < .3:
        out.insert(int(rng.integers(0, len(out) + 1)), shared)
        obs.n("duplicate_lines")
    return out


def source(rng, obs, name):
    s = [f"{name}"]
    if rng.random() < .3:
        s += [str(rng.choice(["Lufft CHM15k", "Aux sensor", "A device"])) for _ in range(int(rng.integers(1, 3)))]
        obs.n("multi_source")
    return "\n".join(dict.fromkeys(s))


def amend(rng, obs, path, shared, model=False, uuid_needed=False):
    with netCDF4.Dataset(path, "a") as nc:
        h = history(rng, obs, shared)
        if model and not parsed(h[-1]):
            h.append(line(rng, obs, "model file created"))
        nc.history = "\n".join(h)
        if not model:
            nc.source = source(rng, obs, nc.source)
            if rng.random() < .5:
                nc.instrument_pid = f"https://hdl.handle.net/21.12132/3.{rng.integers(0, 4)}"
                obs.n("pids")
        if not uuid_needed and rng.random() < .15:
            del nc.file_uuid
            obs.n("no_uuid")


def parsed(s):
    try:
        return datetime.datetime.strptime(s.split(" - ")[0].strip(), "%Y-%m-%d %H:%M:%S %z")
    except ValueError:
        return None


def attrs(path):
    with netCDF4.Dataset(path) as nc:
        return {a: nc.getncattr(a) for a in nc.ncattrs()}, {k: {a: v.getncattr(a) for a in v.ncattrs()} for k, v in nc.variables.items()}


# ------------------------------------------------------------------ judge
def identifier(rng, obs):
    x = rng.random()
    u = gen.rand_uuid(rng)
    if x < .5:
        return None, None
    obs.n("uuid_given")
    return (str(u), u) if x < .75 else (u, u)


def judge_uuid(obs, pre, got, want, returned, others):
    try:
        u = _uuid.UUID(got)
    except (ValueError, TypeError):
        obs.bad(pre + "uuid-invalid", repr(got))
        return
    obs.check(str(returned) == got, pre + "uuid-returned", lambda: f"file_uuid {got}, returned {returned}")
    obs.check(got == str(u), pre + "uuid-form", lambda: f"file_uuid {got}")
    if want is not None:
        obs.check(u == want, pre + "uuid-requested", lambda: f"file_uuid {got}, requested {want}")
    else:
        obs.n("uuid_fresh")
        obs.check(u not in others and u.int != 0 and u.version == 4, pre + "uuid-not-fresh", lambda: f"file_uuid {got} is not a new random identifier")


def judge_uuids(obs, pre, a, inputs):
    want = {i["file_uuid"] for i in inputs if "file_uuid" in i}
    got = [x for x in str(a.get("source_file_uuids", "")).split(", ") if x]
    obs.n("uuids")
    obs.check(sorted(got) == sorted(want), pre + "source-uuids", lambda: f"source_file_uuids {got}, inputs were {sorted(want)}")


def judge_history(obs, pre, a, inputs, span, words, ordered=True):
    lines = a["history"].split("\n")
    first = lines[0]
    obs.check(bool(OWN.match(first)) and all(w in first for w in words), pre + "history-own", lambda: f"first line {first!r}")
    t = parsed(first)
    if t is not None:
        obs.check(span[0] - datetime.timedelta(seconds=1) <= t <= span[1] + datetime.timedelta(seconds=1), pre + "history-own-time", lambda: f"{first!r} between {span}")
    want = []
    for i in inputs:
        if "history" in i:
            h = i["history"].split("\n")
            want += h[-1:] if i.get("cloudnet_file_type") == "model" else h
    rest = lines[1:]
    obs.n("history_lines", len(rest))
    if ordered:
        want = list(dict.fromkeys(want))
        obs.check(sorted(rest) == sorted(want), pre + "history-lines", lambda: f"missing {[x for x in want if x not in rest]}, extra {[x for x in rest if x not in want]}, {len(rest)} lines for {len(want)}")
        ts = [parsed(x) for x in rest]
        bad = [i for i in range(len(ts) - 1) if (ts[i] is None and ts[i + 1] is not None) or (ts[i] and ts[i + 1] and ts[i] < ts[i + 1])]
        obs.check(not bad, pre + "history-order", lambda: f"{rest[bad[0]]!r} before {rest[bad[0] + 1]!r}")
    else:
        obs.check([x.strip() for x in rest] == [x.strip() for x in want], pre + "history-lines", lambda: f"{rest} for {want}")


def timed(f, *a, **k):
    t0 = datetime.datetime.now(datetime.timezone.utc)
    r = f(*a, **k)
    return r, (t0.replace(microsecond=0), datetime.datetime.now(datetime.timezone.utc))


def same(obs, key, a, b, names):
    for n in names:
        obs.check(a.get(n) == b.get(n), key + n, lambda n=n: f"{n} is {a.get(n)!r}, of the input {b.get(n)!r}")


# ------------------------------------------------------------------ chains
def chain(obs, rng, tmp):
    from cloudnetpy import products
    from cloudnetpy.categorize import generate_categorize
    S = gen.scene(rng, dur=.5, ng=45)
    d = datetime.date(2023, 6, 14) if rng.random() < .5 else datetime.date(int(rng.integers(1995, 2031)), int(rng.integers(1, 13)), int(rng.integers(1, 29)))
    S["date"] = (f"{d.year}", f"{d.month:02}", f"{d.day:02}")
    files = gen.write_scene(S, tmp)
    shared = line(rng, obs, "shared step")
    for k, p in files.items():
        amend(rng, obs, p, shared, model=k == "model")
    with netCDF4.Dataset(files["radar"], "a") as nc:
        nc.location = str(rng.choice(["Hyytiälä", "Lindenberg", "Site of test 3"]))
    unusable = "disdrometer" in files and rng.random() < .35
    if unusable:
        obs.n("disdrometer_unusable")
        with netCDF4.Dataset(files["disdrometer"], "a") as nc:
            k = str(rng.choice(["rainfall_rate", "n_particles"]))
            nc.renameVariable(k, "unknown")
    if "mwr" in files and rng.random() < .35:  # radar measuring LWP
        obs.n("shared")
        with netCDF4.Dataset(files["radar"], "a") as nc, netCDF4.Dataset(files["mwr"]) as m:
            t, tm = nc["time"][:], m["time"][:]
            v = nc.createVariable("lwp", "f4", ("time",), fill_value=9.969209968386869e36)
            v[:] = np.interp(t, tm, np.ma.filled(m["lwp"][:], 0))
            v.units = "kg m-2"
        files["mwr"] = files["radar"]
    obs.n("chains")
    I = {k: attrs(p)[0] for k, p in files.items()}
    used = [I[k] for k in files if not (k == "disdrometer" and unusable)]
    # identifiers of the same file are given once
    out = tmp + "/cat.nc"
    arg, want = identifier(rng, obs)
    u, span = timed(generate_categorize, dict(files), out, uuid=arg)
    a, va = attrs(out)
    ids = [_uuid.UUID(i["file_uuid"]) for i in used if "file_uuid" in i]
    judge_uuid(obs, "cat-", a["file_uuid"], want, u, ids)
    judge_uuids(obs, "cat-", a, used)
    judge_history(obs, "cat-", a, used, span, ("categorize file created",))
    srcs = {s for i in used for s in i["source"].split("\n")}
    obs.check(sorted(a["source"].split("\n")) == sorted(srcs), "cat-source", lambda: f"source {a['source']!r}, inputs {sorted(srcs)}")
    pids = {i["instrument_pid"] for i in used if "instrument_pid" in i}
    got = [x for x in a.get("source_instrument_pids", "").split("\n") if x]
    obs.check(sorted(got) == sorted(pids), "cat-pids", lambda: f"source_instrument_pids {got}, inputs {sorted(pids)}")
    same(obs, "cat-", a, I["radar"], ("location", "year", "month", "day"))
    obs.check(a["cloudnet_file_type"] == "categorize" and I["radar"]["location"] in a["title"], "cat-title", lambda: f"{a['cloudnet_file_type']} {a['title']}")
    for k, names in VARS.items():
        if k in files:
            for n in names:
                if n in va:
                    variable(obs, n, va[n], I[k])
    if "rainfall_rate" in va:
        variable(obs, "rainfall_rate", va["rainfall_rate"], I["disdrometer"] if "disdrometer" in files and not unusable else I["radar"])
    # products of the categorize file
    types = [p for p in TYPES if "mwr" in files or p not in ("lwc", "der")]
    for p in rng.permutation(types)[:int(rng.integers(2, 6))]:
        product(obs, rng, tmp, products, str(p), out, a, ids)


def variable(obs, n, v, i):
    obs.n("variable_sources")
    obs.check(v.get("source") == i["source"], "variable-source", lambda: f"{n}: source {v.get('source')!r}, measured by {i['source']!r}")
    obs.check(v.get("source_instrument_pid") == i.get("instrument_pid"), "variable-pid", lambda: f"{n}: source_instrument_pid {v.get('source_instrument_pid')!r}, of the instrument {i.get('instrument_pid')!r}")


def product(obs, rng, tmp, products, p, cat, a, ids):
    f = getattr(products, "generate_" + p)
    out = f"{tmp}/{p}.nc"
    arg, want = identifier(rng, obs)
    with mie.redirected(tmp):
        u, span = timed(f, cat, out, uuid=arg)
    b, _ = attrs(out)
    obs.n("products")
    words = {"iwc": ("ice water content",), "lwc": ("liquid water content",), "der": ("droplet effective radius",), "ier": ("ice effective radius",)}.get(p, (p,))
    new = judge_uuid(obs, p + "-", b["file_uuid"], want, u, [*ids, _uuid.UUID(a["file_uuid"])])  # noqa: F841
    judge_uuids(obs, p + "-", b, [a])
    judge_history(obs, p + "-", b, [a], span, (*words, "file created"))
    same(obs, p + "-", b, a, ("location", "year", "month", "day", "source", "source_instrument_pids"))
    obs.check(b["cloudnet_file_type"] == p and a["location"] in b["title"], p + "-title", lambda: f"{b['cloudnet_file_type']} {b['title']}")
    if rng.random() < .3:
        obs.n("second_run")
        with mie.redirected(tmp):
            u2 = f(cat, out)
        c, _ = attrs(out)
        obs.check(c["file_uuid"] == str(u2) != b["file_uuid"], p + "-uuid-repeated", lambda: f"second run {c['file_uuid']}, first {b['file_uuid']}")
        obs.check(c["history"].split("\n")[1:] == b["history"].split("\n")[1:] and c["source_file_uuids"] == b["source_file_uuids"], p + "-second-run", lambda: f"{c['history']!r} after {b['history']!r}")


# ------------------------------------------------------------------ dissipation rate
def epsilon_radar(obs, rng, tmp):
    from cloudnetpy.products import generate_epsilon_from_radar
    n, nh = 200, 4
    t = 5 + np.arange(n) * 5 / 3600
    src, mod, out = tmp + "/radar.nc", tmp + "/model.nc", tmp + "/out.nc"
    with gen._nc(src) as nc:
        gen._globals(nc, "radar", "METEK MIRA-35", gen.rand_uuid(rng), location="Mace Head")
        nc.createDimension("time", n)
        nc.createDimension("range", nh)
        gen.put(nc, "time", t, ("time",), "hours since 2023-06-14 00:00:00 +00:00", dtype="f8")
        gen.put(nc, "range", 300. + 100 * np.arange(nh), ("range",), "m")
        gen.put(nc, "height", 305. + 100 * np.arange(nh), ("range",), "m")
        gen.put(nc, "altitude", 5.0, (), "m")
        gen.put(nc, "latitude", 50.0, (), "degree_north")
        gen.put(nc, "longitude", 10.0, (), "degree_east")
        gen.put(nc, "v", np.cumsum(rng.normal(0, .2, (n, nh)), axis=0) * .3, ("time", "range"), "m s-1")
    with gen._nc(mod) as nc:
        gen._globals(nc, "model", "ECMWF IFS", gen.rand_uuid(rng))
        nc.createDimension("time", 25)
        nc.createDimension("level", 8)
        gen.put(nc, "time", np.arange(25.), ("time",), "hours since 2023-06-14 00:00:00 +00:00")
        for k, x, un in (("height", np.tile(np.linspace(10, 5000, 8), (25, 1)), "m"), ("uwind", rng.uniform(3, 9, (25, 8)), "m s-1"), ("vwind", rng.uniform(-9, 9, (25, 8)), "m s-1")):
            gen.put(nc, k, x, ("time", "level"), un, dtype="f8")
    shared = line(rng, obs, "shared step")
    amend(rng, obs, src, shared)
    amend(rng, obs, mod, shared, model=True)
    I = [attrs(src)[0], attrs(mod)[0]]
    arg, want = identifier(rng, obs)
    u, span = timed(generate_epsilon_from_radar, src, mod, out, uuid=arg)
    a, _ = attrs(out)
    obs.n("epsilon_radar")
    judge_uuid(obs, "er-", a["file_uuid"], want, u, [])
    judge_uuids(obs, "er-", a, I)
    judge_history(obs, "er-", a, I, span, ("file created",))
    same(obs, "er-", a, I[0], ("location", "year", "month", "day", "instrument_pid"))
    srcs = {s for i in I for s in i["source"].split("\n")}
    obs.check(sorted(a["source"].split("\n")) == sorted(srcs), "er-source", lambda: f"source {a['source']!r}, inputs {sorted(srcs)}")


def epsilon_lidar(obs, rng, tmp):
    from cloudnetpy.products import generate_epsilon_from_lidar
    n, nh = 120, 4
    t = 7 + np.arange(n) * 5 / 3600
    src, win, out = tmp + "/stare.nc", tmp + "/wind.nc", tmp + "/out.nc"
    for path, kind, dim in ((src, "doppler-lidar", "range"), (win, "doppler-lidar-wind", "height")):
        with gen._nc(path) as nc:
            gen._globals(nc, kind, "HALO Photonics StreamLine", gen.rand_uuid(rng), location="Juelich")
            nc.createDimension("time", None)
            nc.createDimension(dim, nh if dim == "range" else 6)
            v = nc.createVariable("time", "f8", ("time",))
            v.units, v.calendar = "hours since 2023-06-14 00:00:00 +00:00", "standard"
            if dim == "range":
                v[:] = t
                gen.put(nc, "range", 100. + 50 * np.arange(nh), ("range",), "m")
                gen.put(nc, "height", 110. + 50 * np.arange(nh), ("range",), "m", standard_name="height_above_mean_sea_level", long_name="Height above mean sea level")
                gen.put(nc, "v", np.cumsum(rng.normal(0, .2, (n, nh)), axis=0) * .3, ("time", "range"), "m s-1")
                gen.put(nc, "ray_accumulation_time", 1.0, (), "s")
                for k, x in (("latitude", 50.9), ("longitude", 6.4), ("altitude", 10.0)):
                    gen.put(nc, k, x, (), "m" if k == "altitude" else "degree")
            else:
                v[:] = np.arange(0, 24, .5)
                gen.put(nc, "height", np.linspace(50, 600, 6), ("height",), "m", dtype="f8")
                for k in ("uwind", "vwind"):
                    gen.put(nc, k, rng.uniform(3, 9, (48, 6)), ("time", "height"), "m s-1", dtype="f8")
    shared = line(rng, obs, "shared step")
    for p in (src, win):
        amend(rng, obs, p, shared, uuid_needed=True)
    I = [attrs(src)[0], attrs(win)[0]]
    arg, want = identifier(rng, obs)
    u, span = timed(generate_epsilon_from_lidar, src, win, out, uuid=arg)
    a, _ = attrs(out)
    obs.n("epsilon_lidar")
    judge_uuid(obs, "el-", a["file_uuid"], want, u, [])
    judge_uuids(obs, "el-", a, I)
    judge_history(obs, "el-", a, I, span, ("epsilon-lidar file created",), ordered=False)
    same(obs, "el-", a, I[0], ("location", "year", "month", "day"))
    for i in I:
        obs.check(i["source"] in a["source"], "el-source", lambda i=i: f"source {a['source']!r}, input {i['source']!r}")


# ------------------------------------------------------------------ level 3
def level3(obs, rng, tmp):
    from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product as process
    p = str(rng.choice(["cf", "iwc", "lwc"]))
    M = l3gen.model(rng, nt=9)
    O = l3gen.observations(rng, p, 6000.0)
    mod, ob, out = l3gen.write_model(tmp + "/20230614_site_ecmwf.nc", M), l3gen.write_obs(tmp + "/20230614_site_obs.nc", O), tmp + "/out.nc"
    shared = line(rng, obs, "shared step")
    amend(rng, obs, ob, shared)
    amend(rng, obs, mod, shared, model=True)
    if rng.random() < .5:
        with netCDF4.Dataset(ob, "a") as nc:
            nc.source_instrument_pids = "https://pid/1\nhttps://pid/2"
    I = [attrs(ob)[0], attrs(mod)[0]]
    arg, want = identifier(rng, obs)
    site = None if rng.random() < .6 else "Some Site"
    u, span = timed(process, "ecmwf", p, mod, ob, out, uuid=arg, site_name=site)
    a, _ = attrs(out)
    obs.n("l3")
    judge_uuid(obs, "l3-", a["file_uuid"], want, u, [])
    judge_uuids(obs, "l3-", a, I)
    judge_history(obs, "l3-", a, I, span, ("file created",))
    same(obs, "l3-", a, I[0], ("year", "month", "day", "source_instrument_pids"))
    obs.check(a["location"] == (site or I[1]["location"]), "l3-location", lambda: f"location {a['location']!r}")
    obs.check(sorted(a["source"].split("\n")) == sorted(map(os.path.basename, (mod, ob))), "l3-source", lambda: f"source {a['source']!r}")


# ------------------------------------------------------------------ converters
DAY = datetime.date(2022, 3, 4)


def converter(obs, rng, tmp, spec):
    arg, want = identifier(rng, obs)
    d = DAY if rng.random() < .5 else datetime.date(int(rng.integers(2011, 2026)), int(rng.integers(1, 13)), int(rng.integers(1, 28)))
    out = tmp + "/out.nc"
    name = spec["fmt"]
    if spec["kind"] == "text":
        fmt = textfmt.ALL[name]()
        recs = [fmt.new(rng, t - fmt.offset()) for t in tc.times(rng, d, max(8, fmt.min_records), 600)]
        if name == "fd12p" and all(tc.all_missing(fmt, r) for r in recs):
            return
        files = [fmt.write(tmp + "/raw", recs)]
    else:
        n = int(rng.integers(4, 16))
        fmt = nccase.make(rng, name, n)
        recs = [fmt.new(rng, t) for t in tc.times(rng, d, n, 60, fmt.res)]
        if nccase.no_data(fmt, recs):
            return
        files = fmt.files(tmp + "/in", [[r] for r in recs] if getattr(fmt, "one_per_file", False) else fmt.regroup([recs]))

    def run(u):
        r = fmt.run(files, out, uuid=u)
        return r[0] if isinstance(r, tuple) else r
    t0 = datetime.datetime.now(datetime.timezone.utc).replace(microsecond=0)
    u = run(arg)
    span = (t0, datetime.datetime.now(datetime.timezone.utc))
    a, _ = attrs(out)
    obs.n("converted")
    judge_uuid(obs, "l1-", a["file_uuid"], want, u, [])
    judge_history(obs, "l1-", a, [], span, ("file created", a["cloudnet_file_type"]))
    obs.check((a["year"], a["month"], a["day"]) == (f"{d.year}", f"{d.month:02}", f"{d.day:02}"), "l1-date", lambda: f"{a['year']}-{a['month']}-{a['day']} for {d}")
    site = fmt.meta()["name"] if hasattr(fmt, "meta") else fmt.site["name"]
    obs.check(a["location"] == site and site in a["title"], "l1-location", lambda: f"location {a['location']!r} of {site!r}")
    obs.check(bool(a.get("source")), "l1-source", lambda: "no source")
    obs.check("source_file_uuids" not in a, "l1-source-uuids", lambda: f"{a['source_file_uuids']!r}")
    if rng.random() < .5:
        os.remove(out)
        obs.n("second_run")
        u2 = run(None)
        b, _ = attrs(out)
        obs.check(b["file_uuid"] == str(u2) != a["file_uuid"], "l1-uuid-repeated", lambda: f"second run {b['file_uuid']}, first {a['file_uuid']}")
        diff = {k for k in {*a, *b} if a.get(k) != b.get(k) and k not in ("file_uuid", "history")}
        obs.check(not diff and len(b["history"].split("\n")) == 1, "l1-second-run", lambda: f"{ {k: (a.get(k), b.get(k)) for k in diff} } history {b['history']!r}")
