"""C14: order, partitioning and repetition of raw records and files do not matter."""
import datetime
import os

import numpy as np
from numpy import ma

from .. import nccase, textfmt
from .. import textconv as tc
from ..runner import Obs

ID, LEVEL = "C14", "exploration"
RULE = 'the same generated records (45 formats: 27 text logs, 11 netCDF/HDF5, 7 binary or message formats) written in different orders, partitions over files, file orders and with repeated records and files; all data variables of the conversions compared; distinct by format and seed'
ASSUMPTIONS = ['records of one time are identical (conflicting ones are C13)']
MIN = {'compared': 800, 'variables': 12000, 'files': 1800, 'repeated_file': 200, 'order:reversed': 200, 'order:shuffled': 200, 'order:rotated': 150}
MIN.update({"fmt:" + f: 10 for f in [*textfmt.ALL, *nccase.NAMES]})

TEXT = sorted(textfmt.ALL)


def cases(tier, seed):
    n = 30 if tier == "quick" else 120
    return [{"seed": seed * 100000 + i * 100 + j, "kind": "text", "fmt": f} for i in range(n) for j, f in enumerate(TEXT)] + \
        [{"seed": seed * 100000 + i * 100 + 50 + j, "kind": "nc", "fmt": f} for i in range(n) for j, f in enumerate(nccase.NAMES)]


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    if spec["kind"] == "nc":
        nccase.c14(obs, spec, rng, str(tmp), same)
    else:
        text(obs, spec, rng, str(tmp))
    obs.n("fmt:" + spec["fmt"])
    obs.sig = f"{spec['fmt']}-{spec['seed']}"
    obs.sample = {"format": spec["fmt"], "observed": dict(obs.counts)}
    return obs


def same(obs, a, b, what):
    """all variables of two converted files identical"""
    obs.n("compared")
    if not obs.check(set(a["vars"]) == set(b["vars"]), "variables-differ", lambda: f"{what}: {set(a['vars']) ^ set(b['vars'])}"):
        return
    for k, x in a["vars"].items():
        y = b["vars"][k]
        obs.n("variables")
        x, y = ma.asarray(x), ma.asarray(y)
        ok = x.shape == y.shape and np.array_equal(ma.getmaskarray(x), ma.getmaskarray(y)) and np.array_equal(x.filled(0), y.filled(0), equal_nan=True)
        if not ok and k in ("latitude", "longitude") and x.shape == y.shape:  # average of positions
            ok = bool(np.all(np.abs(x - y) < 2e-5))
        if not obs.check(ok, "data-differ:" + k, lambda: f"{what}: {k}: {x.shape} vs {y.shape}; {tc.short(x.ravel()[:6])} vs {tc.short(y.ravel()[:6])}, masked {ma.count_masked(x)} vs {ma.count_masked(y)}"):
            return
    skip = {"file_uuid", "history"}
    for k, x in a["attrs"].items():
        if k not in skip:
            obs.check(str(x) == str(b["attrs"].get(k)), "attribute-differs:" + k, lambda: f"{what}: {k}: {x} vs {b['attrs'].get(k)}")


def text(obs, spec, rng, tmp):
    fmt = textfmt.ALL[spec["fmt"]]()
    res = textfmt.RESOLUTION_MIN.get(fmt.name, 1)
    off = fmt.offset()
    day = datetime.date(2025, int(rng.integers(1, 13)), int(rng.integers(1, 28)))
    days = [day] if rng.random() < .5 else [day + datetime.timedelta(days=k) for k in (-1, 0, 1)]
    recs = []
    for d in days:
        n = int(rng.choice([3, 8, int(rng.integers(4, 25))]))
        recs += [fmt.new(rng, t - off) for t in tc.times(rng, d, n, [None, max(60, res)][int(rng.integers(2))], res)]
    recs.sort(key=lambda r: r["t"])
    tc.counters(fmt, rng, recs, p_reset=float(rng.choice([0, .1])))
    date = day.isoformat() if len(days) > 1 or rng.random() < .5 else None
    base = fmt.write(tmp + "/base", recs)
    nc, e = tc.convert(fmt, [base], tmp + "/base.nc", date=date)
    if not obs.check(e is None, "conversion-failed", lambda: f"{fmt.name}: {e!r}"):
        return
    for v in range(3):
        var = list(recs)
        what = []
        if rng.random() < .6:
            for k in rng.integers(0, len(recs), int(rng.integers(1, 6))):
                var.append(recs[k])
            what.append("repeated records")
        order = str(rng.choice(["sorted", "shuffled", "reversed", "rotated"]))
        var.sort(key=lambda r: r["t"])
        if order == "shuffled":
            var = [var[i] for i in rng.permutation(len(var))]
        elif order == "reversed":
            var = var[::-1]
        elif order == "rotated":
            k = int(rng.integers(0, len(var)))
            var = var[k:] + var[:k]
        what.append(order)
        if fmt.multi:
            nf = int(rng.integers(1, min(5, len(var)) + 1))
            cut = [0, *sorted(int(x) for x in rng.choice(np.arange(1, len(var)), nf - 1, replace=False)), len(var)]
            parts = [var[a:b] for a, b in zip(cut[:-1], cut[1:])]
            if rng.random() < .4:
                parts.append(parts[int(rng.integers(0, len(parts)))])
                what.append("repeated file")
                obs.n("repeated_file")
            parts = [parts[i] for i in rng.permutation(len(parts))]
            what.append(f"{len(parts)} files")
            obs.n("files", len(parts))
        else:
            parts = [var]
        files = [fmt.write(f"{tmp}/v{v}-{i}", p) for i, p in enumerate(parts)]
        nc2, e = tc.convert(fmt, files, f"{tmp}/v{v}.nc", date=date)
        obs.n("order:" + order)
        if obs.check(e is None, "conversion-failed-variant", lambda: f"{fmt.name} ({', '.join(what)}): {e!r}"):
            same(obs, nc, nc2, f"{fmt.name} ({', '.join(what)})")
