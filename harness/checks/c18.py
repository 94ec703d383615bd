"""C18: damaged records of text logs never disturb other records."""
import datetime

import numpy as np
from numpy import ma

from .. import textconv as tc
from .. import textfmt
from ..runner import Obs

ID, LEVEL = "C18", "exploration"
RULE = 'generated raw logs of 27 text formats with 1-3 places damaged (cut, garbled field, unreadable time, extra or lost fields, junk lines, lost line ends, split lines, non-text bytes, stray quotes); all values of intact records compared with their ground truth in the converter and in the disdronator reader; distinct by format and seed'
ASSUMPTIONS = ['digits replaced by other digits are not detectable damage', 'the first bytes that identify the format and header lines are intact']
MIN = {'converted': 1000, 'intact_rows': 15000, 'intact_values': 150000, 'read': 350, 'read_values': 800000, 'damaged_rows_kept': 350, 'damaged_row_values': 1800, 'cumulative': 3000, 'accumulated': 4000, 'kind:append': 150, 'kind:badtime': 150, 'kind:bytes': 150, 'kind:drop-token': 150, 'kind:garble': 150, 'kind:insert': 150, 'kind:join': 150, 'kind:junk': 150, 'kind:quote': 150, 'kind:split': 150, 'kind:truncate': 150}
MIN.update({"fmt:" + f: 30 for f in textfmt.ALL})

TEXT = sorted(textfmt.ALL)
KINDS = ("truncate", "garble", "badtime", "append", "insert", "junk", "join", "split", "drop-token", "bytes", "quote")
JUNK = ("", " ", "###", "\x00\x00\x00", "Connection lost", ";;;;;;", ",,,,,", "\t\t\t", "0", "-1 -1 -1", "ERROR 17: timeout; retry", "[", "]", "\"", "[]", "\udcff\udcfe\udc80\udc81")


FIRST_LINE = ("parsivel-op4a", "parsivel-telegram", "parsivel-telegram2")  # the format is identified by the first line of the first record


def cases(tier, seed):
    n = 240 if tier == "quick" else 400
    return [{"seed": seed * 1000000 + i * 100 + j, "fmt": f} for i in range(n) for j, f in enumerate(TEXT)]


def flat_index(rec):
    """(field index) of each flat token"""
    out = []
    for i, x in enumerate(rec["tok"]):
        out += [i] * (len(x) if isinstance(x, list) else 1)
    return out


def damage(fmt, rng, rec, kind, nxt):
    """-> list of raw pieces (text) replacing the record and the set of fields whose value may be anything; None = all must be dropped/missing"""
    eol = fmt.eol
    line = fmt.line(rec)
    flat = fmt.flat(rec)
    own = flat_index(rec)
    timef = {i for i, f in enumerate(fmt.fields) if isinstance(f, textfmt.T)}
    if kind == "truncate":
        k = int(rng.integers(1, len(line)))
        if rng.random() < .3:
            k = int(rng.integers(1, min(len(line), 30)))
        if rng.random() < .3:
            k = max(1, len(line) - int(rng.integers(1, 6)))
        return line[:k] + eol, "cut"
    if kind in ("garble", "bytes", "quote"):
        cand = [i for i in range(len(flat)) if own[i] not in timef]
        i = int(rng.choice(cand))
        if rng.random() < .5:  # one of the converted fields
            conv = [j for j in cand if fmt.fields[own[j]].var or fmt.fields[own[j]].num is not None]
            i = int(rng.choice(conv))
        bad = {"garble": ["#?!", "1.2.3", "x", "--5", "5e", "12a4", "0x1F", "99999", "99999999999", "NULL", "1,,2"[:1] + "%"], "bytes": ["\udcff\udcfe", "1\udc80", "\udcc3("], "quote": ['"', '"x', '1"2']}[kind]
        new = dict(rec)
        tok = [list(x) if isinstance(x, list) else x for x in rec["tok"]]
        s = str(rng.choice(bad))
        f = own[i]
        if isinstance(tok[f], list):
            tok[f][i - own.index(f)] = s
        else:
            tok[f] = s
        new["tok"] = tok
        return fmt.line(new) + eol, {f}
    if kind == "badtime":
        tok = list(rec["tok"])
        i = int(rng.choice(sorted(timef)))
        if fmt.name == "rain_e_h3-22":  # date and time are repeated in the next fields
            i = min(timef)
        s = tok[i]
        d = [j for j, c in enumerate(s) if c.isdigit()]
        j = int(rng.choice(d))
        r = rng.random()
        if r < .6:
            tok[i] = s[:j] + str(rng.choice(["x", "?", "#"])) + s[j + 1:]
        elif r < .8 and fmt.name != "ws-hyytiala":  # separate components: each is a readable number
            tok[i] = "".join("9" if c.isdigit() else c for c in s)
        else:
            tok[i] = "-"
        return fmt.line({**rec, "tok": tok}) + eol, "time"
    if kind == "append":
        extra = str(rng.choice(["7", "extra", "0.00", "99 99"]))
        return line + fmt.sep + fmt.sep.join([extra] * int(rng.integers(1, 4))) + eol, set()
    if kind in ("insert", "drop-token") and getattr(fmt, "block", False):
        if rng.random() < .4:  # one of the lines of the block lost
            lines = line.split("\n")
            j = int(rng.integers(2, len(lines) - 1))
            return "\n".join(lines[:j] + lines[j + 1:]) + eol, set()
        vecs = [j for j, x in enumerate(rec["tok"]) if isinstance(x, list)]
        j = int(rng.choice(vecs))
        tok = list(rec["tok"])
        k = int(rng.integers(len(tok[j])))
        tok[j] = tok[j][:k] + (["7"] if kind == "insert" else []) + tok[j][k + (kind != "insert"):]
        return fmt.line({**rec, "tok": tok}) + eol, {j}
    if kind == "insert":
        i = int(rng.integers(len(flat)))
        f = flat[:i] + [str(rng.choice(["7", "12.5", "000"]))] + flat[i:]
        return render_flat(fmt, rec, f) + eol, set()
    if kind == "drop-token":
        i = int(rng.integers(len(flat)))
        f = flat[:i] + flat[i + 1:]
        return render_flat(fmt, rec, f) + eol, set()
    if kind == "split":
        k = int(rng.integers(1, len(line)))
        return line[:k] + eol + line[k:] + eol, "cut"
    if kind == "join":
        if getattr(fmt, "block", False):
            return line[:int(rng.integers(1, len(line)))], "cut"
        return line[:int(rng.integers(1, len(line) + 1))], "cut"
    raise ValueError(kind)


def render_flat(fmt, rec, flat):
    """Render a record whose flat tokens are given explicitly."""
    keep = fmt.flat
    try:
        fmt.flat = lambda r: flat
        if getattr(fmt, "block", False):
            return fmt.line(rec)  # blocks have named fields: nothing to shift
        return fmt.line(rec)
    finally:
        del fmt.flat
        assert fmt.flat == keep


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    tmp = str(tmp)
    fmt = textfmt.ALL[spec["fmt"]]()
    res = textfmt.RESOLUTION_MIN.get(fmt.name, 1)
    off = fmt.offset()
    day = datetime.date(2025, int(rng.integers(1, 13)), int(rng.integers(1, 28)))
    n = int(rng.integers(10, 26))
    recs = [fmt.new(rng, t - off) for t in tc.times(rng, day, n, [None, max(60, res)][int(rng.integers(2))], res)]
    tc.counters(fmt, rng, recs, p_reset=0)
    nd = int(rng.integers(1, 4))
    where = sorted(int(x) for x in rng.choice(n, nd, replace=False))
    if rng.random() < .2:
        where[0] = 0
    if rng.random() < .2:
        where[-1] = n - 1
    if fmt.name == "parsivel-op4a":  # the format is identified by the first bytes
        where = [max(x, 1) for x in where]
    where = sorted(set(where))
    kinds = {}
    pieces, damaged, out = [], {}, []
    i = 0
    while i < n:
        r = recs[i]
        if i in where:
            kind = str(rng.choice(KINDS))
            while kind == "junk" and i == 0 and fmt.name in FIRST_LINE:
                kind = str(rng.choice(KINDS))
            if kind == "junk":
                j = str(rng.choice(JUNK)) + fmt.eol
                out.append({"raw": j})
                out.append(r)
                kinds["junk"] = kinds.get("junk", 0) + 1
                pieces.append(("junk", j))
            else:
                raw, free = damage(fmt, rng, r, kind, None)
                damaged[i] = free
                kinds[kind] = kinds.get(kind, 0) + 1
                pieces.append((kind, raw))
                if kind == "join" and i + 1 < n and not getattr(fmt, "block", False):
                    # the next record follows on the same line: both are damaged
                    out.append({"raw": raw + fmt.line(recs[i + 1]) + fmt.eol})
                    damaged[i + 1] = "cut"
                    i += 1
                else:
                    out.append({"raw": raw + ("\n" if kind == "join" else "")})
        else:
            out.append(r)
        i += 1
    if spec.get("debug"):
        print(pieces)
    path = fmt.write(tmp + "/raw", out)
    intact = [r for k, r in enumerate(recs) if k not in damaged]
    bad = {fmt.utc(recs[k]): (recs[k], free) for k, free in damaged.items()}
    what = f"{fmt.name}: damage {[(k, tc.short(repr(s))) for k, s in pieces]}"
    for k, v in kinds.items():
        obs.n("kind:" + k, v)
    obs.n("fmt:" + fmt.name)
    obs.sig = f"{fmt.name}-{spec['seed']}"
    date = day.isoformat() if rng.random() < .5 else None
    converter(obs, fmt, path, tmp, date, day, intact, bad, what)
    if hasattr(fmt, "read"):
        reader(obs, fmt, path, intact, bad, what)
    obs.sample = {"format": fmt.name, "damage": kinds, "observed": dict(obs.counts)}
    return obs


def converter(obs, fmt, path, tmp, date, day, intact, bad, what):
    if fmt.name == "fd12p" and all(tc.all_missing(fmt, r) for r in intact):
        return
    try:
        nc, e = tc.convert(fmt, [path], tmp + "/o.nc", date=date)
    except Exception as ex:  # noqa: BLE001
        obs.bad("crash", f"{type(ex).__name__}: {ex}; {what}")
        return
    if not obs.check(e is None, "conversion-failed", lambda: f"{e!r}; {what}"):
        return
    obs.n("converted")
    t = np.asarray(nc["vars"]["time"], float)
    exp = {round(tc.hours(fmt.utc(r), day), 5): r for r in intact if not (fmt.name == "fd12p" and tc.all_missing(fmt, r))}
    got = {round(x, 5): i for i, x in enumerate(t.tolist())}
    near = lambda d, x: next((d[y] for y in (round(x, 5), round(x - 1e-5, 5), round(x + 1e-5, 5)) if y in d), None)
    lost = [x for x in exp if near(got, x) is None]
    obs.check(not lost, "intact-record-lost", lambda: f"{len(lost)} of {len(exp)} intact records lost (hours {lost[:4]}); {what}")
    badh = {round(tc.hours(k, day), 5): v for k, v in bad.items()}
    known = {}
    for x, i in got.items():
        r = near(exp, x)
        if r is not None:
            obs.n("intact_rows")
            known[i] = (r, None)
            for k, v in fmt.expected(r).items():
                obs.n("intact_values")
                if k not in nc["vars"]:
                    obs.bad("variable-lost:" + k, what)
                    continue
                obs.check(tc.cell_ok(nc["vars"][k][i], v), "intact-value-changed:" + k, lambda: f"hour {x}: {k} = {tc.short(nc['vars'][k][i])} but record gives {tc.short(v)}; {what}")
            continue
        d = near(badh, x)
        if not obs.check(d is not None, "invented-time", lambda: f"row at hour {x} where no record was; values {[(k, tc.short(nc['vars'][k][i])) for k in fmt.expected(intact[0]) if k in nc['vars']][:4]}; {what}"):
            continue
        r, free = d
        obs.n("damaged_rows_kept")
        known[i] = (r, free)
        if free == "time":
            obs.bad("unreadable-time-kept", f"hour {x}; {what}")
            continue
        for j, f in enumerate(fmt.fields):
            if f.var is None or f.var in fmt.cumulative or f.var.startswith("_"):
                continue
            k = f.var
            v = fmt.value(f, r["tok"][j])
            if free == "cut":
                continue_ok = True
            else:
                continue_ok = j in free
            g = nc["vars"][k][i]
            if continue_ok:
                continue
            obs.n("damaged_row_values")
            obs.check(bool(np.all(ma.getmaskarray(ma.asarray(g)))) or tc.cell_ok(g, v), "damaged-row-foreign-value:" + k, lambda: f"hour {x}: {k} = {tc.short(g)}, record says {tc.short(v)}; {what}")
        if free == "cut":
            cut_row(obs, fmt, nc, i, r, what)
    sums(obs, fmt, nc, t, known, what)


def cut_row(obs, fmt, nc, i, r, what):
    """A record that was cut: every kept value is the record's own (possibly of a cut token, at most one) or missing."""
    diff = []
    for j, f in enumerate(fmt.fields):
        if f.var is None or f.var in fmt.cumulative or f.var.startswith("_"):
            continue
        g = nc["vars"][f.var][i]
        if not (bool(np.all(ma.getmaskarray(ma.asarray(g)))) or tc.cell_ok(g, fmt.value(f, r["tok"][j]))):
            diff.append((f.var, tc.short(g), tc.short(fmt.value(f, r["tok"][j]))))
    obs.check(len(diff) <= 1, "cut-record-foreign-values", lambda: f"{diff[:4]}; {what}")


def sums(obs, fmt, nc, t, known, what):
    order = sorted(known)
    if len(order) != len(t):
        return
    for var, conv in fmt.cumulative.items():
        f = next(j for j, x in enumerate(fmt.fields) if x.var == var)
        vals, usable = [], True
        for i in order:
            r, free = known[i]
            if free is None:
                vals.append(fmt.raw_counter(r, var))
            elif ma.is_masked(nc["vars"][var][i]):
                vals.append(None)
            elif free in ("cut", "time") or f in free:
                usable = False
            else:
                vals.append(fmt.raw_counter(r, var))
        if usable:
            e = tc.running_sum(vals, conv)
            g = nc["vars"][var]
            b = [i for i in range(len(e)) if not tc.cell_ok(g[i], e[i], 1e-4, 1e-9)]
            obs.n("cumulative", len(e))
            obs.check(not b, "cumulative-changed:" + var, lambda: f"row {b[0]}: {g[b[0]]} expected {e[b[0]]}; {what}")
    if fmt.accum and len(t) > 1:
        av, rv = fmt.accum
        res = float(np.median(np.diff(t)) * 3600)
        rate = ma.asarray(nc["vars"][rv]).astype(float)
        e = np.cumsum(rate.filled(0)) * res
        g = nc["vars"][av]
        m = ma.getmaskarray(rate)
        obs.n("accumulated", len(e))
        obs.check(np.allclose(ma.filled(g, 0)[~m], e[~m], rtol=1e-4, atol=1e-9), "accumulated-changed:" + av, what)


def reader(obs, fmt, path, intact, bad, what):
    try:
        time, data = fmt.read(path)
    except Exception as ex:  # noqa: BLE001
        obs.bad("reader-crash", f"{type(ex).__name__}: {ex}; {what}")
        return
    obs.n("read")
    time = [t if isinstance(t, datetime.datetime) else np.datetime64(t, "us").astype(datetime.datetime) for t in time]
    lens = {str(k): len(v) for k, v in data.items()}
    if not obs.check(set(lens.values()) <= {len(time)}, "reader-ragged", lambda: f"time {len(time)} others {dict(list(lens.items())[:6])}; {what}"):
        return
    idx = {}
    for i, t in enumerate(time):
        idx.setdefault(t, i)
    lost = [fmt.utc(r) for r in intact if fmt.utc(r) not in idx]
    obs.check(not lost, "reader-intact-record-lost", lambda: f"{len(lost)} of {len(intact)} lost {lost[:3]}; {what}")
    times = {fmt.utc(r) for r in intact}
    extra = [t for t in idx if t not in times and t not in bad]
    obs.check(not extra, "reader-invented-time", lambda: f"{extra[:3]}; {what}")
    for r in intact:
        i = idx.get(fmt.utc(r))
        if i is None:
            continue
        obs.n("read_rows")
        for k, v in fmt.read_expected(r).items():
            if k not in data:
                continue
            obs.n("read_values")
            g = data[k][i]
            ok = (v is None and (ma.is_masked(g) or np.isnan(g))) or (v is not None and tc.cell_ok(np.asarray(g, float) if not ma.is_masked(g) else g, v if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else v), 1e-5, 1e-6))
            obs.check(ok, f"reader-intact-value-changed:{k}", lambda: f"{fmt.utc(r)}: {k} = {tc.short(g)}, record gives {tc.short(v)}; {what}")
