"""netCDF files of disdrometer loggers and what the disdronator reader must return for them (by field number of the Parsivel telegram)."""
import datetime

import netCDF4
import numpy as np
from numpy import ma

WHOLE = {3, 4, 8, 9, 10, 11, 12, 18, 25, 26, 27, 28}
#            name in the file -> field number
FORMATS = {
    "parsivel2nc": {"interval": 9, "data_raw": 93, "number_concentration": 90, "fall_velocity": 91, "n_particles": 11, "rainfall_rate": 1, "radar_reflectivity": 7, "E_kin": 34,
                    "visibility": 8, "synop_WaWa": 3, "synop_WW": 4, "T_sensor": 12, "sig_laser": 10, "state_sensor": 18, "V_sensor": 17, "I_heating": 16, "error_code": 25},
    "disdrodl": {"rain_intensity": 1, "code_4680": 3, "code_4677": 4, "reflectivity": 7, "MOR": 8, "amplitude": 10, "n_particles": 11, "T_sensor": 12, "I_heating": 16,
                 "V_power_supply": 17, "state_sensor": 18, "absolute_rain_amount": 24, "error_code": 25, "T_pcb": 26, "T_L_sensor_head": 27, "T_R_sensor_head": 28,
                 "kinetic_energy": 34, "snowfall_intensity": 35, "fieldN": 90, "fieldV": 91, "data_raw": 93},
    "munich": {"status_sensor": 18, "error_code": 25, "rr": 1, "rain_accum": 2, "wawa": 3, "Ze": 7, "n_particles": 11, "snow_intensity": 35, "sample_interval": 9, "curr_heating": 16,
               "volt_sensor": 17, "signal_amplitude": 10, "T_sensor_housing": 12, "T_pcb": 26, "T_sensor_right": 27, "T_sensor_left": 28, "N": 90, "v": 91, "M": 93},
    "leipzig": {"Meas_Interval": 9, "RR_Intensity": 1, "RR_Accumulated": 2, "RR_Total": 24, "Synop_WaWa": 3, "Synop_WW": 4, "Reflectivity": 7, "Visibility": 8, "T_Sensor": 12,
                "Sig_Laser": 10, "N_Particles": 11, "State_Sensor": 18, "E_kin": 34, "V_Sensor": 17, "I_Heating": 16, "Error_Code": 25, "Data_N_Field": 90, "Data_V_Field": 91, "Data_Raw": 93},
}
EXTRA = {"munich": {"sensor_time": 20, "serial_no": 13, "firmware_IOP": 14, "firmware_DSP": 15}}


def check(obs, fmt, rng, tmp):
    from cloudnetpy.disdronator import read_parsivel
    n = int(rng.choice([1, 2, 32, int(rng.integers(3, 40))]))
    keys = dict(FORMATS[fmt])
    if fmt == "disdrodl":  # optional columns
        for k in list(keys):
            if k != "fieldN" and rng.random() < .15:
                del keys[k]
    day = datetime.datetime(2025, int(rng.integers(1, 13)), int(rng.integers(1, 28)))
    times = [day + datetime.timedelta(seconds=int(s)) for s in sorted(rng.choice(86400, n, replace=False))]
    epoch = {"leipzig": datetime.datetime(1970, 1, 1)}.get(fmt, [day, datetime.datetime(1970, 1, 1), datetime.datetime(2001, 1, 1)][int(rng.integers(3))])
    truth, serial = {}, int(rng.integers(100000, 500000))
    path = f"{tmp}/{fmt}.nc"
    gaps = rng.random() < .6
    with netCDF4.Dataset(path, "w", format=str(rng.choice(["NETCDF4", "NETCDF4_CLASSIC"]))) as nc:
        nc.createDimension("time", None if rng.random() < .5 else n)
        nc.createDimension("diameter", 32)
        nc.createDimension("velocity", 32)
        t = nc.createVariable("Meas_Time" if fmt == "leipzig" else "time", "f8", ("time",))
        t.units = f"seconds since {epoch:%Y-%m-%d %H:%M:%S}"
        t[:] = [(x - epoch).total_seconds() for x in times]
        for name, num in keys.items():
            if num == 9 and fmt == "disdrodl":
                continue
            if num == 93:
                shape, dims = (n, 32, 32), ("time", "diameter", "velocity") if fmt == "munich" else ("time", "velocity", "diameter")
                x = rng.poisson(.1, shape)
            elif num in (90, 91):
                shape, dims = (n, 32), ("time", "diameter" if num == 90 else "velocity")
                x = np.round(rng.uniform(-9.9, 9, shape), 3)
            else:
                shape, dims = (n,), ("time",)
                x = rng.integers(0, 99, n) if num in WHOLE else np.round(rng.uniform(0, 60, n), 3)
            x = ma.array(x)
            if gaps and rng.random() < .4:
                x[rng.random(shape) < .2] = ma.masked
                obs.n("gaps")
            scale = 1 / 3.6e6 if (fmt, num) == ("parsivel2nc", 1) else 1
            y = x.astype(float) * scale
            kind = "f8" if scale != 1 or rng.random() < .3 else ("i4" if num in WHOLE or num == 93 else "f4")
            if (fmt, num) == ("parsivel2nc", 12):  # first value wrongly converted by the logger
                y[0] += 273
            v = nc.createVariable(name, kind, dims, fill_value=[None, -9999][int(rng.integers(2))])
            v[:] = y
            truth[num] = ma.array(np.transpose(x, (0, 2, 1))) if (fmt, num) == ("munich", 93) else x
        for name, num in EXTRA.get(fmt, {}).items():
            v = nc.createVariable(name, "i4", ("time",))
            v[:] = serial
            truth[num] = ma.array(np.full(n, serial))
        if fmt in ("parsivel2nc", "leipzig"):
            nc.Sensor_ID = str(serial)
        if fmt == "disdrodl":
            nc.sensor_serial_number = str(serial)
            v = nc.createVariable("time_interval", "i4", ())
            v[...] = 60
            truth[9] = ma.array(np.full(n, 60))
        if fmt == "leipzig":
            nc.Station_Name, nc.Station_ID = "Leipzig", "LE"
        if fmt != "munich":
            truth[13] = ma.array(np.full(n, serial))
    what = f"{fmt} ({n} records, gaps {gaps})"
    try:
        time, data = read_parsivel(path)
    except Exception as e:  # noqa: BLE001
        obs.bad("reader-failed", f"{what}: {e!r}")
        return
    obs.check([str(x)[:19] for x in time] == [str(x) for x in times], "reader-time", lambda: f"{what}: {list(time)[:3]} vs {times[:3]}")
    for num, x in truth.items():
        if x.mask.all() and num not in data:
            continue
        if not obs.check(num in data, f"reader-missing:{num}", lambda: f"{what}: field {num} is not returned"):
            continue
        g = ma.masked_invalid(ma.asarray(data[num], dtype=float))
        obs.n("values", x.size)
        gm, xm = ma.getmaskarray(g), ma.getmaskarray(x)
        obs.check(g.shape == x.shape and np.array_equal(gm, xm), f"reader-mask:{num}", lambda: f"{what}: field {num}: {int(gm.sum())} missing of shape {g.shape}, the file has {int(xm.sum())} of {x.shape}")
        if g.shape == x.shape:
            b = ~gm & ~xm
            d = np.abs(np.asarray(g.data)[b] - np.asarray(x.data, float)[b]) > 1e-6 * (1 + np.abs(np.asarray(x.data, float)[b]))
            obs.check(not d.any(), f"reader-value:{num}", lambda: f"{what}: field {num}: {int(d.sum())} of {int(b.sum())} values differ, e.g. {g[b][d][:3]} vs {x[b][d][:3]}")
    obs.n("reader_files")
