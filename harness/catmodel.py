"""Independent reference for the gridding part of the categorize file.

Everything is recomputed from the input netCDF files with plain numpy, per bin and
per gate, without using cloudnetpy."""
import numpy as np
from numpy import ma

from . import gen

N_BIN = 2880
GRID = (np.arange(N_BIN) + 0.5) / 120.0
C_LIGHT = 299792458.0


def hours(t, n_seconds_limit=25):
    t = np.array(ma.filled(t, np.nan), dtype="f8")
    if np.nanmax(t) > n_seconds_limit:
        t = np.mod(t, 86400) / 3600
        if t[-1] == 0:
            t[-1] = 24
    return t


class Inputs:
    def __init__(self, files):
        self.files = files
        self.d, self.a = {}, {}
        for k, f in files.items():
            self.d[k], self.a[k] = gen.read(f)
        r = self.d["radar"]
        self.t = hours(r["time"])
        # which 30 s bin; samples within 2e-6 h of an edge are ambiguous
        x = self.t * 120
        self.bin = np.floor(x).astype(int)
        self.edge_amb = np.abs(x - np.round(x)) < 1e-6
        alt = r["altitude"]
        self.alt = float(ma.mean(alt))
        self.height = np.array(r["height"], dtype="f8") if "height" in r else np.array(r["range"], dtype="f8") + self.alt
        self.rng = np.array(r["range"], dtype="f8")
        self.agl = self.height - self.alt

    # ---- C01
    def nyq_full(self):
        r = self.d["radar"]
        n, g = self.t.size, self.height.size
        if "nyquist_velocity" in r:
            f = np.array(r["nyquist_velocity"], dtype="f8")
        else:
            prf = np.array(r["prf"], dtype="f8")
            f = prf[0] * C_LIGHT / (4 * float(r["radar_frequency"]) * 1e9)
        if f.shape == (n, g):
            return f
        if f.size == 1:
            return np.full((n, g), float(f.ravel()[0]))
        st = np.array(r["chirp_start_indices"]).astype(int)
        st = np.broadcast_to(st, (n, st.shape[-1]))
        f = np.broadcast_to(f, (n, st.shape[-1]))
        out = np.empty((n, g))
        for i in range(n):
            s = st[i] - st[i][0]
            for j in range(len(s)):
                e = s[j + 1] if j + 1 < len(s) else g
                out[i, s[j]:e] = f[i, j]
        return out

    def radar_bins(self):
        """List of (bin index, raw sample indices)."""
        out = []
        for b in np.unique(self.bin):
            if 0 <= b < N_BIN:
                out.append((int(b), np.where(self.bin == b)[0]))
        return out

    def binned(self):
        """Expected averaged fields on all bins which have radar data, before the
        completeness filter. {name: (values, mask)} plus 'undef' pixels of v."""
        r = self.d["radar"]
        bins = self.radar_bins()
        nb, g = len(bins), self.height.size
        nyq = self.nyq_full()
        res = {}

        def mean2(a, lin=None):
            a = ma.array(a)
            val = np.array(a.filled(0), dtype="f8")
            m = ma.getmaskarray(a) | ~np.isfinite(val)
            if lin == "db":
                val = 10 ** (val / 10)
            o, om = np.zeros((nb, g)), np.ones((nb, g), bool)
            for i, (_, ix) in enumerate(bins):
                ok = ~m[ix]
                c = ok.sum(0)
                s = np.where(ok, val[ix], 0).sum(0)
                om[i] = c == 0
                o[i] = s / np.maximum(c, 1)
            if lin == "db":
                o = 10 * np.log10(np.where(om, 1, o))
            return o, om
        res["Z"] = mean2(r["Zh"], "db")
        for k in ("ldr", "sldr"):
            if k in r:
                res[k] = mean2(r[k], "db")
        if "width" in r:
            res["width"] = mean2(r["width"])
        v = r["v"]
        vv, vm = np.array(v.filled(0), dtype="f8"), ma.getmaskarray(v)
        o, om, sg = np.zeros((nb, g)), np.ones((nb, g), bool), np.zeros((nb, g))
        nq = np.zeros((nb, g))
        weak = np.zeros((nb, g), bool)
        one = np.zeros((nb, g), bool)
        deal = "correction_bits" in r and bool(np.all(np.array(r["correction_bits"]) & 1))
        for i, (_, ix) in enumerate(bins):
            ok = ~vm[ix]
            c = ok.sum(0)
            om[i] = c == 0
            one[i] = c <= 1
            cc = np.maximum(c, 1)
            mu = np.where(ok, vv[ix], 0).sum(0) / cc
            sg[i] = np.sqrt((np.where(ok, vv[ix] - mu, 0) ** 2).sum(0) / cc)
            nq[i] = nyq[ix].max(0)
            if deal:
                o[i] = mu
            else:
                ph = vv[ix] * np.pi / nq[i]
                cx = np.where(ok, np.cos(ph), 0).sum(0) / cc
                cy = np.where(ok, np.sin(ph), 0).sum(0) / cc
                o[i] = np.arctan2(cy, cx) * nq[i] / np.pi
                weak[i] = np.hypot(cx, cy) < 2e-3
        res["v"] = (o, om)
        # zero spread (a single sample) is documented as missing
        res["v_sigma"] = (sg, om | one)
        res["nyquist_velocity"] = (nq, np.zeros((nb, g), bool))
        return np.array([b for b, _ in bins]), res, weak, deal

    # ---- C02
    def lidar_valid(self):
        d = self.d["lidar"]
        t = hours(d["time"])
        ok = ~ma.getmaskarray(d["beta"]).all(1)
        return t, ok

    def lidar_height(self):
        d = self.d["lidar"]
        if "height" in d:
            import netCDF4
            with netCDF4.Dataset(self.files["lidar"]) as nc:
                u = nc["height"].units
            return np.array(d["height"], dtype="f4").astype("f8") * (1000 if u == "km" else 1)
        import netCDF4
        with netCDF4.Dataset(self.files["lidar"]) as nc:
            u = nc["altitude"].units
        return np.array(d["range"], dtype="f8") + float(ma.mean(d["altitude"])) * (1000 if u == "km" else 1)

    # ---- C03
    def expected_bins(self):
        """(must, may): sets of grid indices that must / may be present."""
        must, may = set(), set()
        for b, ix in self.radar_bins():
            may.add(b)
            if not self.edge_amb[ix].all():
                must.add(b)
        for i in np.where(self.edge_amb)[0]:
            may.add(int(self.bin[i]) - 1)
            may.add(int(self.bin[i]) + 1)
        t, ok = self.lidar_valid()
        tv = t[ok]
        if tv.size:
            dist = np.abs(GRID[:, None] - tv[None, :]).min(1)
        else:
            dist = np.full(N_BIN, np.inf)
        near = set(np.where(dist <= 1 / 60 + 1e-9)[0].tolist())
        surely = set(np.where(dist <= 1 / 60 - 1e-9)[0].tolist())
        m = self.d["model"]
        tm = hours(m["time"])
        bad = ma.getmaskarray(m["temperature"]).all(1).astype("f8")
        f = np.interp(GRID, tm, bad)
        mok = set(np.where(f < 0.5 + 1e-9)[0].tolist())
        msure = set(np.where(f < 0.5 - 1e-9)[0].tolist())
        return must & surely & msure, may & near & mok

    # ---- model interpolation
    def model_nodes(self):
        """(times, mean heights, {field: (nt, nh)}) with missing profiles dropped."""
        import atmoslib
        m = self.d["model"]
        t = hours(m["time"])
        H = np.array(m["height"], dtype="f4")
        if "sfc_height" in m:
            H = H + np.array(m["sfc_height"], dtype="f4")[:, None]
        elif "sfc_geopotential" in m:
            H = H + np.array(m["sfc_geopotential"], dtype="f4")[:, None] / 9.80665
        else:
            H = H + self.alt
        H = H.astype("f8")
        mean_h = H.mean(0)
        f = float(self.d["radar"]["radar_frequency"])
        T, p, q = (np.array(m[k].filled(0), dtype="f8") for k in ("temperature", "pressure", "q"))
        bad = ma.getmaskarray(m["temperature"]).all(1)
        T[bad], p[bad], q[bad] = 280, 9e4, 1e-3
        raw = {k: np.array(m[k].filled(0), dtype="f8") for k in ("temperature", "pressure", "q", "rh", "uwind", "vwind")}
        out = {}
        for k, a in raw.items():
            o = np.zeros_like(a)
            for i in range(len(t)):
                o[i] = extrap(mean_h, H[i], a[i])
            out[k] = o
        vp = atmoslib.vapor_pressure(p, q)
        svp = atmoslib.saturation_vapor_pressure(T, phase="mixed")
        out["gas"] = np.array(atmoslib.gas_specific_attenuation(T, p, vp, f))
        out["gas_sat"] = np.array(atmoslib.gas_specific_attenuation(T, p, svp, f))
        out["liq"] = np.array(atmoslib.liquid_water_specific_attenuation(T, f))
        good = ~bad
        return t[good], mean_h, {k: v[good] for k, v in out.items()}

    def dense(self, times, which, half=False):
        """Piecewise-linear interpolation of the model nodes to (times, gates) with either
        diagonal of every grid cell: returns {field: (A, B)}."""
        t, mh, F = self._nodes()
        g = self.height.copy()
        if half:
            g = self.height - np.diff(self.height, prepend=self.alt) / 2
        inside = (g >= mh[0]) & (g <= mh[-1])
        it = np.clip(np.searchsorted(t, times, side="right") - 1, 0, len(t) - 2)
        ih = np.clip(np.searchsorted(mh, g, side="right") - 1, 0, len(mh) - 2)
        u = ((times - t[it]) / (t[it + 1] - t[it]))[:, None]
        w = ((g - mh[ih]) / (mh[ih + 1] - mh[ih]))[None, :]
        res = {}
        for k in which:
            a = F[k]
            f00, f01 = a[it][:, ih], a[it][:, ih + 1]
            f10, f11 = a[it + 1][:, ih], a[it + 1][:, ih + 1]
            A = np.where(u >= w, f00 + u * (f10 - f00) + w * (f11 - f10),
                         f00 + w * (f01 - f00) + u * (f11 - f01))
            B = np.where(u + w <= 1, f00 + u * (f10 - f00) + w * (f01 - f00),
                         f11 + (1 - u) * (f01 - f11) + (1 - w) * (f10 - f11))
            for X in (A, B):
                if not inside.all():
                    gi = g[inside]
                    for i in range(X.shape[0]):
                        X[i, ~inside] = extrap(g[~inside], gi, X[i, inside])
            res[k] = (A, B)
        return res

    def _nodes(self):
        if not hasattr(self, "_n"):
            self._n = self.model_nodes()
        return self._n


def extrap(xn, x, y):
    o = np.interp(xn, x, y)
    lo, hi = xn < x[0], xn > x[-1]
    o = np.where(lo, y[0] + (xn - x[0]) * (y[1] - y[0]) / (x[1] - x[0]), o)
    return np.where(hi, y[-1] + (xn - x[-1]) * (y[-1] - y[-2]) / (x[-1] - x[-2]), o)


def completeness(fields, source, has_width):
    """Applies the documented removal of incomplete pixels; for RPG/BASTA also the removal of
    echoes isolated in time and of upward first-gate velocities. Returns masks per field."""
    masks = {k: m.copy() for k, (_, m) in fields.items()}
    s = source.lower()
    if "rpg" in s or "basta" in s:
        for k in ("Z", "v", "width", "ldr", "v_sigma"):
            if k in masks:
                has = ~masks[k]
                pad = np.pad(has, ((1, 1), (0, 0)))
                masks[k] = ~(has & (pad[:-2] | pad[2:]))
        v = fields["v"][0]
        masks["v"][:, 0] |= ~masks["v"][:, 0] & (v[:, 0] > 4)
    stats = {"stripes": 0, "stripe_pixels": 0}
    for k in ("v", "v_sigma", "ldr"):
        if k in masks:
            remove_stripes(masks, k, stats)
    completeness.stats = stats
    bad = masks["Z"] | masks["v"]
    if has_width:
        bad |= masks["width"]
    for k in masks:
        masks[k] = masks[k] | bad
    return masks


def remove_stripes(masks, name, stats):
    """Long records (300 profiles with data or more): a profile or gate with far more values than the five on
    either side loses those values that stand alone, i.e. are missing in the nearest ordinary profiles or gates."""
    before = ~masks[name]
    if before.any(axis=1).sum() < 300:
        return
    for axis in (0, 1):
        # orient so that candidate stripes are rows
        count = (before if axis == 0 else before.T).sum(axis=1)
        n = count.size
        stripe = np.zeros(n, bool)
        for i in range(5, n - 5):
            q1, q3 = np.percentile(np.r_[count[i - 5:i], count[i + 1:i + 6]], [25, 75])
            if q3 == q1 and q3 > 0:
                continue
            stripe[i] = count[i] > 20 and count[i] > q3 + 3 * max(q3 - q1, 1)
        ordinary = np.flatnonzero(~stripe)
        for target, source in (("v", "Z"), (name, name)):
            if name == "v" and source == "v":
                continue
            src = masks[source] if axis == 0 else masks[source].T
            dst = masks[target] if axis == 0 else masks[target].T
            new = dst.copy()
            for i in np.flatnonzero(stripe):
                lo, hi = ordinary[ordinary < i], ordinary[ordinary > i]
                alone = ~src[i]
                if lo.size:
                    alone = alone & src[lo[-1]]
                if hi.size:
                    alone = alone & src[hi[0]]
                stats["stripe_pixels"] += int((alone & ~dst[i]).sum())
                new[i] |= alone
            dst[...] = new
        stats["stripes"] += int(stripe.sum())
