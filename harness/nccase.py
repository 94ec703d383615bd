"""Cases of raw netCDF/HDF5 formats for C13, C14 and C15."""
import datetime
import itertools
import os

import numpy as np
from numpy import ma

from harness import binfmt, ncfmt
from harness import textconv as tc

ALL = {**ncfmt.ALL, **binfmt.ALL}
NAMES = [*sorted(ncfmt.ALL), *sorted(binfmt.ALL)]


def known_errors():
    import cloudnetpy.exceptions as ex
    return tuple(getattr(ex, n) for n in dir(ex) if isinstance(getattr(ex, n), type) and issubclass(getattr(ex, n), Exception))


def make(rng, name, n_time):
    """format whose number of gates sometimes equals the number of timestamps"""
    cls = ALL[name]
    lidar = getattr(cls, "lidar", False)
    if rng.random() < .25:
        return cls(rng, n_gates=max(n_time, 12) if lidar else max(n_time, 3))
    return cls(rng)


def convert(fmt, arg, out, date=None, uuid=None):
    try:
        fmt.run(arg, out, date=date, uuid=uuid)
    except known_errors() as e:
        return None, e
    except ZeroDivisionError as e:
        if fmt.name != "ct25k":
            raise
        return None, e
    except RuntimeError as e:  # mwrpy's own complaint about a day without data
        if fmt.name != "hatpro-l1c":
            raise
        return None, e
    return tc.read(out), None


def failed(e, suffix=""):
    """key of a failed conversion (ct25k: known finding of the reader library)"""
    return "ct25k-repeated-times" if isinstance(e, ZeroDivisionError) else "conversion-failed" + suffix


def no_data(fmt, recs):
    """converter is documented to refuse: nothing left, or everything screened"""
    kept = fmt.kept(recs)
    if len(kept) < fmt.min_records:
        return True
    v = fmt.expected(kept).get("v")
    if v is not None and fmt.name not in ("mrr", "opera", "rpg") and bool(ma.getmaskarray(v).all()):
        return True
    return False


def partition(rng, fmt, recs, obs):
    if getattr(fmt, "one_per_file", False):
        return [[r] for r in recs]
    if fmt.multi and len(recs) >= 6 and rng.random() < .6:
        nf = int(rng.integers(2, 5))
        cut = [0, *sorted(int(x) for x in rng.choice(np.arange(1, len(recs)), nf - 1, replace=False)), len(recs)]
        parts = [recs[a:b] for a, b in zip(cut[:-1], cut[1:])]
        obs.n("multi_file")
        return [parts[i] for i in rng.permutation(len(parts))]
    return [recs]


def reorder(rng, recs):
    order = str(rng.choice(["sorted", "shuffled", "blocks", "reversed"]))
    recs = sorted(recs, key=lambda r: r["t"])
    if order == "shuffled":
        recs = [recs[i] for i in rng.permutation(len(recs))]
    elif order == "reversed":
        recs = recs[::-1]
    elif order == "blocks":
        k = int(rng.integers(0, len(recs)))
        recs = recs[k:] + recs[:k]
    return recs, order


GEOMETRY = ("el", "az", "tp", "lat", "lon", "sd", "nn", "m", "zen", "azi", "low", "flag", "cfg", "ms", "el2", "tb23", "tb31", "t")


def jitter(obs, fmt, rng, ts):
    """fractions of seconds, and records less than a second apart"""
    if not fmt.subsec or rng.random() < .6:
        return ts
    obs.n("fractional_seconds")
    out = []
    for t in ts:
        f = int(rng.integers(0, 5))
        out.append(t + datetime.timedelta(milliseconds=125 * f))
        if rng.random() < .2:
            out.append(t + datetime.timedelta(milliseconds=125 * (f + int(rng.integers(1, 3)))))
    return sorted(set(out))


def twin(fmt, rng, r):
    """another profile of the same time and pointing"""
    q = fmt.new(rng, r["t"])
    while "cfg" in r and q["cfg"] != r["cfg"]:
        q = fmt.new(rng, r["t"])
    for k in GEOMETRY:
        if k in r:
            q[k] = r[k]
    if "s" in r and isinstance(r["s"], dict):
        q["s"]["Elev"] = r["s"]["Elev"]
    for k in ("lwp", "iwv"):
        if k in r and (r[k] is None or q[k] is None):
            q[k] = r[k]
    return q


def c13(obs, spec, rng, tmp):
    day = datetime.date(2025, int(rng.integers(1, 13)), int(rng.integers(2, 28)))
    n = int(rng.choice([2, 5, int(rng.integers(3, 30))]))
    fmt = make(rng, spec["fmt"], n)
    if spec["fmt"] == "bowtie" and rng.random() < .3:
        n = max(fmt.nc, 2)
    mode = str(rng.choice(["one", "one", "multi", "multi", "multi", "absent"]))
    if mode == "multi" and not fmt.days:
        mode = "one"
    days = [day]
    if mode == "multi":
        days = [day + datetime.timedelta(days=k) for k in (-1, 0, 1)]
    elif mode == "absent":
        days = [day + datetime.timedelta(days=k) for k in ((-1, 1) if fmt.days else (int(rng.choice([-1, 1])),))]
    dated = mode != "one" or rng.random() < .5
    recs = []
    for d in days:
        k = n if d == day else int(rng.integers(2, 8))
        ts = jitter(obs, fmt, rng, tc.times(rng, d, k, [None, 10, 60][int(rng.integers(3))], fmt.res))
        if rng.random() < .4:
            base = datetime.datetime.combine(d, datetime.time())
            ts[0] = base
            if k > 2:
                ts[-1] = base + datetime.timedelta(seconds=86399)
            ts = sorted(set(ts))
            obs.n("boundary")
        recs += [fmt.new(rng, t) for t in ts]
    ndup = int(rng.choice([0, 0, 1, 4]))
    conflicts = 0
    for k in rng.integers(0, len(recs), ndup):
        r = recs[k]
        if rng.random() < .5 and conflicts < 3:
            r = twin(fmt, rng, r)
            conflicts += 1
            obs.n("conflicting_duplicates")
        else:
            obs.n("exact_duplicates")
        recs.append(r)
    recs, order = reorder(rng, recs)
    parts = fmt.regroup(partition(rng, fmt, recs, obs))
    arg = fmt.files(tmp + "/in", parts)
    cands = ncfmt.unique_day(recs, day)
    out = tmp + "/out.nc"
    what = f"{fmt.name} ({mode}, {order}, {'dated' if dated else 'undated'}, {len(parts)} files, {fmt.n} gates)"
    nc, e = convert(fmt, arg, out, date=day.isoformat() if dated else None)
    obs.n("order:" + order)
    obs.n("mode:" + mode + ("" if dated else "-undated"))
    if mode == "absent" and isinstance(e, ZeroDivisionError):
        obs.bad(failed(e), f"{what}: {e!r}")
        return
    if mode == "absent":
        obs.check(type(e).__name__ in fmt.nodate_error, "no-timestamp-error", lambda: f"{what}: input has only {[str(d) for d in days]}, requested {day}: {'no error' if e is None else repr(e)}")
        obs.check(not os.path.exists(out), "output-without-data", lambda: f"{what}: output file left behind")
        return
    uniq = [{id(r): r for r in c} for _, c in cands]
    combos = list(itertools.islice(itertools.product(*[list(c.values()) for c in uniq]), 64))
    if any(no_data(fmt, list(c)) for c in combos):
        obs.nontrivial = False
        return
    if not obs.check(e is None, failed(e), lambda: f"{what}: {e!r}"):
        return
    obs.check(tc.file_date(nc) == day, "file-date", lambda: f"{what}: file says {tc.file_date(nc)}, measurements of {day}")
    tu = nc["va"]["time"].get("units", "")
    obs.check(tu.startswith(f"hours since {day.isoformat()} 00:00:00"), "time-units", lambda: f"{what}: time units {tu!r}, date {day}")
    t = np.asarray(nc["vars"]["time"], float)
    obs.check(bool(np.all(np.diff(t) > 0)), "not-increasing", lambda: f"{what}: {t}")
    obs.check(bool(np.all((t >= 0) & (t < 24.000001))), "outside-day", lambda: f"{what}: {t.min()}..{t.max()}")
    tries = []
    for c in combos:
        o = type(obs)()
        ncfmt.compare(o, fmt, nc, fmt.kept(list(c)))
        tries.append(o)
        if not o.viol:
            break
    best = min(tries, key=lambda o: len(o.viol))
    for k, v in best.counts.items():
        obs.n(k, v)
    obs.n("rows", len(t))
    for k, m in best.viol:
        obs.bad(k, f"{what}: {m}")


def c14(obs, spec, rng, tmp, same):
    day = datetime.date(2025, int(rng.integers(1, 13)), int(rng.integers(2, 28)))
    n = int(rng.choice([3, 8, int(rng.integers(4, 25))]))
    fmt = make(rng, spec["fmt"], n)
    days = [day] if not fmt.days or rng.random() < .5 else [day + datetime.timedelta(days=k) for k in (-1, 0, 1)]
    recs = []
    for d in days:
        recs += [fmt.new(rng, t) for t in jitter(obs, fmt, rng, tc.times(rng, d, n if d == day else int(rng.integers(2, 6)), [None, 60][int(rng.integers(2))], fmt.res))]
    date = day.isoformat() if len(days) > 1 or rng.random() < .5 else None
    mine = [r for r in recs if r["t"].date() == day]
    if no_data(fmt, mine):
        obs.nontrivial = False
        return
    one = lambda p: [[r] for r in p] if getattr(fmt, "one_per_file", False) else fmt.regroup([p])
    arg = fmt.files(tmp + "/base", one(recs))
    nc, e = convert(fmt, arg, tmp + "/base.nc", date=date)
    if not obs.check(e is None, failed(e), lambda: f"{fmt.name}: {e!r}"):
        return
    for v in range(3):
        what = []
        var = list(recs)
        if rng.random() < .6:
            for k in rng.integers(0, len(recs), int(rng.integers(1, 6))):
                var.append(recs[k])
            what.append("repeated records")
        var, order = reorder(rng, var)
        obs.n("order:" + order)
        what.append(order)
        parts = fmt.regroup(partition(rng, fmt, var, obs))
        if fmt.multi and rng.random() < .4:
            parts.append(parts[int(rng.integers(0, len(parts)))])
            what.append("repeated file")
            obs.n("repeated_file")
        what.append(f"{len(parts)} files, {fmt.n} gates, dated {date is not None}")
        obs.n("files", len(parts))
        arg = fmt.files(f"{tmp}/v{v}", parts)
        nc2, e = convert(fmt, arg, f"{tmp}/v{v}.nc", date=date)
        if obs.check(e is None, failed(e, "-variant"), lambda: f"{fmt.name} ({', '.join(what)}): {e!r}"):
            o = type(obs)()
            same(o, nc, nc2, f"{fmt.name} ({', '.join(what)})")
            for k, x in o.counts.items():
                obs.n(k, x)
            for k, m in o.viol:
                # known finding: the reader library screens CT25k noise before profiles are sorted
                obs.bad("ct25k-order:beta" if (fmt.name, k) == ("ct25k", "data-differ:beta") else k, m)


def c15(obs, spec, rng, tmp):
    day = datetime.date(2025, int(rng.integers(1, 13)), int(rng.integers(2, 28)))
    n = int(rng.integers(2, 35))
    fmt = make(rng, spec["fmt"], n)
    recs = [fmt.new(rng, t) for t in tc.times(rng, day, n, [None, 10, 60, 600][int(rng.integers(4))], fmt.res)]
    parts = [[r] for r in recs] if getattr(fmt, "one_per_file", False) else fmt.regroup([recs])
    arg = fmt.files(tmp + "/in", parts)
    if no_data(fmt, recs):
        obs.nontrivial = False
        return
    nc, e = convert(fmt, arg, tmp + "/out.nc", date=day.isoformat() if rng.random() < .6 else None)
    if not obs.check(e is None, failed(e), lambda: f"{fmt.name}: {e!r}"):
        return
    obs.check(tc.file_date(nc) == day, "file-date", lambda: f"{fmt.name}: {tc.file_date(nc)} vs {day}")
    kept = fmt.kept(recs)
    ncfmt.compare(obs, fmt, nc, kept)
    obs.n("rows", len(kept))
    return nc
