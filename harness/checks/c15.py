"""C15: values of converted files equal the raw values in documented units."""
import datetime

import numpy as np

from .. import disdroclass, disdronc, nccase, textfmt
from .. import textconv as tc
from ..runner import Obs

ID, LEVEL = "C15", "exploration"
RULE = 'generated raw files of 45 formats (27 text logs, 11 netCDF/HDF5, 7 binary or message formats) with missing markers, counter resets and gaps; every value and unit of the converted file compared with the ground truth of the record, running sums recomputed; distinct by format and seed'
ASSUMPTIONS = ['only documented missing markers are generated as missing']
MIN = {'values': 90000, 'rows': 8000, 'units': 5000, 'accumulated': 2500, 'cumulative': 2000}
MIN.update({"fmt:" + f: 20 for f in [*textfmt.ALL, *nccase.NAMES]})
MIN.update({"reader_files": 60, "gaps": 200, "classes": 600})

TEXT = sorted(textfmt.ALL)


def cases(tier, seed):
    n = 60 if tier == "quick" else 150
    return [{"seed": seed * 100000 + i * 100 + j, "kind": "text", "fmt": f} for i in range(n) for j, f in enumerate(TEXT)] + \
        [{"seed": seed * 100000 + i * 100 + 50 + j, "kind": "nc", "fmt": f} for i in range(n) for j, f in enumerate(nccase.NAMES)] + \
        [{"seed": seed * 100000 + i * 100 + 90 + j, "kind": "reader", "fmt": f} for i in range(n // 3) for j, f in enumerate(disdronc.FORMATS)]


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    if spec["kind"] == "nc":
        nc = nccase.c15(obs, spec, rng, str(tmp))
        if nc:
            unit_check(obs, nccase.ALL[spec["fmt"]], nc)
    elif spec["kind"] == "reader":
        disdronc.check(obs, spec["fmt"], rng, str(tmp))
    else:
        text(obs, spec, rng, str(tmp))
    obs.n("fmt:" + spec["fmt"])
    obs.sig = f"{spec['fmt']}-{spec['seed']}"
    obs.sample = {"format": spec["fmt"], "observed": dict(obs.counts)}
    return obs


def text(obs, spec, rng, tmp):
    fmt = textfmt.ALL[spec["fmt"]]()
    day = datetime.date(2025, int(rng.integers(1, 13)), int(rng.integers(1, 28)))
    res = textfmt.RESOLUTION_MIN.get(fmt.name, 1)
    n = int(rng.integers(max(2, fmt.min_records), 40))
    if rng.random() < .1:
        n = max(1, fmt.min_records)
    step = [None, 10, 60, 600][int(rng.integers(4))]
    if step and step < res:
        step = res
    off = fmt.offset()
    recs = [fmt.new(rng, t - off) for t in tc.times(rng, day, n, step, res)]
    tc.counters(fmt, rng, recs, p_reset=float(rng.choice([0, .1, .4])))
    p = fmt.write(tmp + "/raw", recs)
    date = day.isoformat() if rng.random() < .6 else None
    rows = tc.expected_rows(fmt, recs, day)
    if fmt.name == "fd12p" and all(tc.all_missing(fmt, r) for r in recs):
        obs.nontrivial = False
        return
    nc, e = tc.convert(fmt, [p], tmp + "/out.nc", date=date)
    if not obs.check(e is None, "conversion-failed", lambda: f"{fmt.name}: {e!r}"):
        return
    obs.check(tc.file_date(nc) == day, "file-date", lambda: f"{fmt.name}: {tc.file_date(nc)} vs {day}")
    tc.compare(obs, fmt, nc, rows, day, "")
    unit_check(obs, fmt, nc)
    disdroclass.check(obs, fmt.name, nc)


UNITS = {"rainfall_rate": "m s-1", "rainfall_amount": "m", "precipitation_rate": "m s-1", "precipitation_amount": "m", "snowfall_amount": "m", "snowfall_rate": "m s-1",
         "air_temperature": "K", "relative_humidity": "1", "air_pressure": "Pa", "wind_speed": "m s-1", "wind_direction": "degree", "visibility": "m", "T_sensor": "K",
         "T_interior": "K", "T_laser_driver": "K", "T_ambient": "K", "I_mean_laser": "mA", "V_sensor_supply": "V", "V_power_supply": "V", "radar_reflectivity": "dBZ",
         "interval": "s", "number_concentration": "m-3 mm-1", "fall_velocity": "m s-1", "kinetic_energy": "J m-2 h-1", "I_heating": "A", "rainfall_rate_1min_total": "m s-1",
         "rainfall_rate_1min_solid": "m s-1", "latitude": "degree_north", "longitude": "degree_east", "altitude": "m"}


def unit_check(obs, fmt, nc):
    for k, u in UNITS.items():
        if k in nc["vars"]:
            obs.n("units")
            obs.check(nc["va"][k].get("units") == u, "units:" + k, lambda: f"{fmt.name}: {k} has units {nc['va'][k].get('units')}, expected {u}")
