"""Passive monitor on the classification entry point: records what it was given."""
import contextlib

import numpy as np
from numpy import ma


def snap(data):
    R = data.radar

    def g(d, k):
        return ma.array(d[k][:], copy=True) if k in d else None
    o = {k: g(R.data, n) for k, n in dict(z="Z", v="v", v_sigma="v_sigma", width="width", ldr="ldr", sldr="sldr").items()}
    o["tw"] = ma.array(data.model.data["Tw"][:], copy=True)
    o["beta"] = ma.array(data.lidar.data["beta"][:], copy=True)
    o["time"], o["height"], o["altitude"] = np.array(R.time), np.array(R.height), R.altitude
    o["lwp"] = g(data.mwr.data, "lwp") if data.mwr else ma.masked_all(len(R.time))
    o["radar_type"], o["model_type"] = R.source_type, data.model.source_type
    D = data.disdrometer.data if data.disdrometer else {}
    o["rr"], o["np"], o["wawa"] = g(D, "rainfall_rate"), g(D, "n_particles"), g(D, "synop_WaWa")
    return o


@contextlib.contextmanager
def classification_inputs():
    """Yields a list that receives the gridded observations of every classification."""
    from cloudnetpy.categorize import categorize, classify
    got, undo = [], []
    for mod in (classify, categorize):
        f = getattr(mod, "classify_measurements", None)
        if f is None:
            continue

        def wrapped(data, *a, _f=f, **k):
            try:
                got.append(snap(data))
            except Exception as e:  # noqa: BLE001  (a changed container only disables this monitor)
                got.append(repr(e))
            return _f(data, *a, **k)
        undo.append((mod, f))
        mod.classify_measurements = wrapped
    try:
        yield got
    finally:
        for mod, f in undo:
            mod.classify_measurements = f
