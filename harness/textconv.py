"""Running text-log formats of harness.textfmt through the real converters and
comparing the output file with the ground truth."""
import datetime
import os

import netCDF4
import numpy as np
from numpy import ma

from harness import textfmt

GPS_FREE = ()


def convert(fmt, files, out, date=None, uuid=None):
    """-> (Nc or None, exception or None)"""
    import cloudnetpy.exceptions as ex
    known = tuple(getattr(ex, n) for n in dir(ex) if isinstance(getattr(ex, n), type) and issubclass(getattr(ex, n), Exception))
    try:
        fmt.run(files, out, date=date, uuid=uuid)
    except known as e:
        return None, e
    return read(out), None


def read(path):
    d = {"vars": {}, "attrs": {}, "va": {}}
    with netCDF4.Dataset(path) as nc:
        nc.set_auto_mask(True)
        for k, v in nc.variables.items():
            d["vars"][k] = v[:]
            d["va"][k] = {a: v.getncattr(a) for a in v.ncattrs()}
        for a in nc.ncattrs():
            d["attrs"][a] = nc.getncattr(a)
    return d


def file_date(d):
    a = d["attrs"]
    return datetime.date(int(a["year"]), int(a["month"]), int(a["day"]))


def cell_ok(got, exp, rtol=2e-5, atol=0.0):
    """got: (masked) scalar or vector; exp: None / float / list / array with None for missing"""
    if exp is None:
        return bool(np.all(ma.getmaskarray(ma.asarray(got))))
    if isinstance(exp, (list, np.ndarray)):
        g = ma.asarray(got)
        if isinstance(exp, np.ndarray):
            e = ma.array(exp.astype(float))
        else:
            e = ma.array([0.0 if x is None else float(x) for x in exp], mask=[x is None for x in exp])
        if g.shape != e.shape:
            return False
        if not np.array_equal(ma.getmaskarray(g), ma.getmaskarray(e)):
            return False
        return bool(np.all(np.abs(g.filled(0).astype(float) - e.filled(0)) <= rtol * np.abs(e.filled(0)) + atol))
    if ma.is_masked(got):
        return False
    return bool(abs(float(got) - exp) <= rtol * abs(exp) + max(atol, 1e-12))


def hours(t, day):
    return (t - datetime.datetime.combine(day, datetime.time())).total_seconds() / 3600


SPECIAL_N = {"thies": (20, 22), "thies-pyatmos": (20, 22), "thies-toa5": (20, 22), "rd80": (20,)}


def times(rng, day, n, step=None, resolution=1, lo=0, hi=86399):
    """n distinct sorted datetimes within a day"""
    if step:
        t0 = int(rng.integers(lo, max(lo + 1, hi - step * (n - 1)))) // resolution * resolution
        s = [t0 + step * i for i in range(n)]
    else:
        s = sorted(int(x) for x in rng.choice(np.arange(lo, hi // resolution) , n, replace=False)) if resolution == 1 else \
            sorted(int(x) * resolution for x in rng.choice(np.arange(lo // resolution, hi // resolution), n, replace=False))
    base = datetime.datetime.combine(day, datetime.time())
    return [base + datetime.timedelta(seconds=x) for x in s]


def counters(fmt, rng, recs, p_reset=.05):
    """Make the counter fields of consecutive records increase (with occasional resets)."""
    if not fmt.cumulative:
        return
    for j, f in enumerate(fmt.fields):
        if f.var in fmt.cumulative:
            c, dec = float(np.round(rng.uniform(0, 5), 2)) * (rng.random() < .7), 2
            for r in recs:
                tok = r["tok"][j]
                if tok.strip() in f.miss:
                    continue
                dec = len(tok.split(".")[1]) if "." in tok else 0
                if rng.random() < p_reset:
                    c = rng.choice([0.0, float(np.round(rng.uniform(0, .5), 2))])
                elif rng.random() < .5:
                    c += rng.uniform(0, 2)
                c = round(float(c), dec)
                r["tok"][j] = f"{c:.{dec}f}"


def running_sum(vals, conv):
    """vals: counter values (None = missing) -> expected output values"""
    out, total, prev = [], 0.0, None
    for v in vals:
        if v is None:
            out.append(None)
            continue
        if prev is not None:
            total += v - prev if v >= prev else v
        prev = v
        out.append(conv(total))
    return out


def expected_rows(fmt, recs, day=None):
    """distinct records of a day in time order"""
    seen = {}
    for r in recs:
        t = fmt.utc(r)
        if day is None or t.date() == day:
            seen.setdefault(t, []).append(r)
    return [(t, seen[t]) for t in sorted(seen)]


def all_missing(fmt, rec):
    e = fmt.expected(rec)
    return all(v is None for v in e.values()) and all(fmt.raw_counter(rec, k) is None for k in fmt.cumulative)


def compare(obs, fmt, nc, rows, day, pre, sums=True):
    """rows: [(utc, [candidate records])]; every output row must equal one of the candidates as a whole"""
    t = np.asarray(nc["vars"]["time"], float)
    if fmt.name == "fd12p":
        rows = [(x, [r for r in c if not all_missing(fmt, r)] or c) for x, c in rows if not all(all_missing(fmt, r) for r in c)]
    exp = np.array([hours(x, day) for x, _ in rows])
    if not obs.check(t.shape == exp.shape and np.allclose(t, exp, atol=2e-6, rtol=0), pre + "time-axis",
                     lambda: f"{fmt.name}: time axis {t[:8]} ({t.shape}) expected {exp[:8]} ({exp.shape}); extra {sorted(set(np.round(t, 5)) - set(np.round(exp, 5)))[:5]} missing {sorted(set(np.round(exp, 5)) - set(np.round(t, 5)))[:5]}"):
        return False
    ok = True
    obs.n("rows", len(rows))
    picked = []
    for i, (x, cands) in enumerate(rows):
        fails = []
        for r in cands:
            e = fmt.expected(r)
            bad = [(k, nc["vars"][k][i] if k in nc["vars"] else "absent", v) for k, v in e.items()
                   if not (k in nc["vars"] and cell_ok(nc["vars"][k][i], v))]
            if not bad:
                picked.append(r)
                break
            fails.append(bad)
        else:
            k, g, v = fails[0][0]
            ok = obs.check(False, pre + "value:" + k, f"{fmt.name} at {x}: {k} = {short(g)}, raw record gives {short(v)}; all differing: {[b[0] for b in fails[0]][:8]}")
            picked.append(cands[0])
        obs.n("values", len(fmt.expected(cands[0])))
    if sums and all(len(c) == 1 for _, c in rows):
        for var, conv in fmt.cumulative.items():
            e = running_sum([fmt.raw_counter(r, var) for r in picked], conv)
            g = nc["vars"][var]
            bad = [i for i in range(len(e)) if not cell_ok(g[i], e[i], 1e-4, 1e-9)]
            obs.n("cumulative", len(e))
            ok &= obs.check(not bad, pre + "cumulative:" + var, lambda: f"{fmt.name}: {var} at row {bad[0]} of {len(e)} = {g[bad[0]]}, expected {e[bad[0]]}; raw counter {[fmt.raw_counter(r, var) for r in picked][:bad[0] + 1][-6:]}")
        if fmt.accum:
            av, rv = fmt.accum
            e = [fmt.expected(r)[rv] for r in picked]
            if len(e) > 1:
                res = float(np.median(np.diff(exp)) * 3600)
                acc, tot = [], 0.0
                for v in e:
                    tot += (v or 0) * res
                    acc.append(None if v is None else tot)
            else:
                acc = [0.0]
            g = nc["vars"][av]
            bad = [i for i in range(len(acc)) if not cell_ok(g[i], acc[i], 1e-4, 1e-9)]
            obs.n("accumulated", len(acc))
            ok &= obs.check(not bad, pre + "accumulated:" + av, lambda: f"{fmt.name}: {av} at row {bad[0]} of {len(acc)} = {g[bad[0]]}, expected {acc[bad[0]]}")
    return ok


def short(v):
    s = str(v).replace("\n", " ")
    return s if len(s) < 120 else s[:120] + "..."
