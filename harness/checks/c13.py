"""C13: time axis of converted files: sorted, unique, inside the requested day, nothing lost, values stay with their time."""
import datetime
import os

import numpy as np

from .. import nccase, textfmt
from .. import textconv as tc
from ..runner import Obs

ID, LEVEL = "C13", "exploration"
RULE = 'generated raw files of 45 formats (27 text logs, 11 netCDF/HDF5, 7 binary or message formats): one, several or no records of the requested day, with and without a requested date, sorted, reversed, shuffled and in blocks, exact and conflicting duplicates, records at midnight, one or several files; the time axis and every value compared with the records; distinct by format and seed'
ASSUMPTIONS = ['conflicting records of one time: any one of them may be kept']
MIN = {'values': 40000, 'rows': 5000, 'conflicting_duplicates': 300, 'exact_duplicates': 300, 'boundary': 300, 'mode:absent': 60, 'mode:multi': 150, 'mode:one': 60, 'mode:one-undated': 60, 'multi_file': 90, 'order:shuffled': 80, 'order:blocks': 70, 'order:reversed': 70, 'class_count': 40}
MIN.update({"fmt:" + f: 20 for f in [*textfmt.ALL, *nccase.NAMES]})

TEXT = sorted(textfmt.ALL)


def cases(tier, seed):
    n = 60 if tier == "quick" else 200
    return [{"seed": seed * 100000 + i * 100 + j, "kind": "text", "fmt": f} for i in range(n) for j, f in enumerate(TEXT)] + \
        [{"seed": seed * 100000 + i * 100 + 50 + j, "kind": "nc", "fmt": f} for i in range(n) for j, f in enumerate(nccase.NAMES)]


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    if spec["kind"] == "nc":
        nccase.c13(obs, spec, rng, str(tmp))
    else:
        text(obs, spec, rng, str(tmp))
    obs.n("fmt:" + spec["fmt"])
    obs.sig = f"{spec['fmt']}-{spec['seed']}"
    obs.sample = {"format": spec["fmt"], "observed": dict(obs.counts)}
    return obs


def text(obs, spec, rng, tmp):
    fmt = textfmt.ALL[spec["fmt"]]()
    res = textfmt.RESOLUTION_MIN.get(fmt.name, 1)
    off = fmt.offset()
    day = datetime.date(2025, int(rng.integers(1, 13)), int(rng.integers(1, 28)))
    mode = str(rng.choice(["one", "one", "multi", "multi", "multi", "absent"]))
    days = [day] if mode == "one" else [day + datetime.timedelta(days=int(k)) for k in ((-1, 0, 1) if mode == "multi" else (-1, 1))]
    dated = mode != "one" or rng.random() < .5
    recs = []
    for d in days:
        n = int(rng.choice([2, 5, int(rng.integers(3, 25)), *tc.SPECIAL_N.get(fmt.name, (32,))]))
        n = max(n, fmt.min_records)
        step = [None, 10, 60][int(rng.integers(3))]
        ts = tc.times(rng, d, n, max(step, res) if step else None, res)
        if rng.random() < .4:  # day boundaries
            base = datetime.datetime.combine(d, datetime.time())
            ts[0] = base
            if n > 2:
                ts[-1] = base + datetime.timedelta(seconds=86399 // res * res)
            ts = sorted(set(ts))
            obs.n("boundary")
        recs += [fmt.new(rng, t - off) for t in ts]
    ndup = int(rng.choice([0, 0, 1, 5]))
    if mode == "one" and rng.random() < .4:  # as many records as there are diameter or velocity classes
        total = int(rng.choice(tc.SPECIAL_N.get(fmt.name, (32,))))
        ndup = int(rng.integers(1, 6))
        recs = [fmt.new(rng, t - off) for t in tc.times(rng, day, total - ndup, None, res)]
        obs.n("class_count")
    for k in rng.integers(0, len(recs), ndup):
        r = recs[k]
        if rng.random() < .5:
            r = fmt.new(rng, r["t"])
            obs.n("conflicting_duplicates")
        else:
            obs.n("exact_duplicates")
        recs.append(r)
    order = str(rng.choice(["sorted", "shuffled", "blocks", "reversed"]))
    recs.sort(key=lambda r: r["t"])
    if order == "shuffled":
        recs = [recs[i] for i in rng.permutation(len(recs))]
    elif order == "reversed":
        recs = recs[::-1]
    elif order == "blocks":
        k = int(rng.integers(0, len(recs)))
        recs = recs[k:] + recs[:k]
    if fmt.multi and rng.random() < .5 and len(recs) >= 6:
        cut = sorted(int(x) for x in rng.choice(np.arange(1, len(recs)), 2, replace=False))
        parts = [recs[:cut[0]], recs[cut[0]:cut[1]], recs[cut[1]:]]
        obs.n("multi_file")
    else:
        parts = [recs]
    files = [fmt.write(f"{tmp}/raw{i}", p) for i, p in enumerate(parts)]
    rows = tc.expected_rows(fmt, recs, day)
    if fmt.name == "fd12p" and rows and all(tc.all_missing(fmt, r) for _, c in rows for r in c):
        obs.nontrivial = False
        return
    out = tmp + "/out.nc"
    nc, e = tc.convert(fmt, files, out, date=day.isoformat() if dated else None)
    obs.n("order:" + order)
    obs.n("mode:" + mode + ("" if dated else "-undated"))
    if mode == "absent":
        obs.check(type(e).__name__ in fmt.nodate_error, "no-timestamp-error", lambda: f"{fmt.name}: input has only {[str(d) for d in days]}, requested {day}: {'no error' if e is None else repr(e)}")
        obs.check(not os.path.exists(out), "output-without-data", lambda: f"{fmt.name}: output file left behind")
        return
    if len(rows) < fmt.min_records:
        obs.nontrivial = False
        return
    if not obs.check(e is None, "conversion-failed", lambda: f"{fmt.name} ({mode}, {order}): {e!r}"):
        return
    obs.check(tc.file_date(nc) == day, "file-date", lambda: f"{fmt.name} ({mode}, {order}, dated {dated}): file says {tc.file_date(nc)}, measurements of {day}")
    tu = nc["va"]["time"].get("units", "")
    obs.check(tu.startswith(f"hours since {day.isoformat()} 00:00:00"), "time-units", lambda: f"{fmt.name}: time units {tu!r}, date {day}")
    t = np.asarray(nc["vars"]["time"], float)
    obs.check(bool(np.all(np.diff(t) > 0)), "not-increasing", lambda: f"{fmt.name}: {t}")
    obs.check(bool(np.all((t >= 0) & (t < 24.000001))), "outside-day", lambda: f"{fmt.name}: {t.min()}..{t.max()}")
    tc.compare(obs, fmt, nc, rows, day, "", sums=False)
