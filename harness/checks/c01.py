"""C01: averaged radar fields of a categorize file against a per-bin recomputation."""
import numpy as np
from numpy import ma

from .. import gen
from ..catmodel import GRID, Inputs, completeness
from ..runner import Obs

ID, LEVEL = "C01", "exploration"
RULE = ("random multi-instrument scenes (4 radar types, 5 samplings, jitter, gaps, masks, 4 ways of giving the folding "
        "velocity, folded velocities, dealiasing flag, LDR/SLDR/width/rain present or not) run through the categorize "
        "step, and long records with noisy profiles and gates (stripes); a case is non-trivial if at least 200 averaged pixels were compared; distinct by scene shape and mode")
ASSUMPTIONS = ["radar samples closer than 4 ms to a bin edge may fall in either bin; none are generated on purpose",
               "long records in which a velocity spread is indistinguishable from zero are left out (it decides what counts as a stripe)"]
MIN = {"pix_Z": 20000, "pix_v": 20000, "pix_folded": 200, "rain_values": 50, "stripes": 30, "stripe_pixels": 150}


def cases(tier, seed):
    n = 168 if tier == "quick" else 700
    out = [{"k": "rand", "seed": seed * 100000 + i} for i in range(n)]
    # forced combinations
    i = 0
    for radar in ("mira", "rpg", "basta", "copernicus"):
        for nyq in ("scalar", "chirp", "full", "prf"):
            for deal in (False, True):
                out.append({"k": "grid", "seed": seed * 100000 + 50000 + i,
                            "o": {"radar": radar, "nyq": nyq, "dealiased": deal, "fold": not deal}})
                i += 1
    for j in range(18 if tier == "quick" else 60):
        out.append({"k": "rain", "seed": seed * 100000 + 60000 + j,
                    "o": {"radar": "rpg", "disdro": False}, "rr": ["zero", "masked", "mixed"][j % 3]})
    for j in range(48 if tier == "quick" else 160):
        out.append({"k": "long", "seed": seed * 100000 + 70000 + j,
                    "o": {"dur": [3.2, 2.7, 2.45][j % 3], "step": 10.0, "ng": 48, "alt": 104.0, "gaps": j % 2, "uneven": False}})
    return out


def stripes(rng, S):
    """Adds profiles and gates full of noise, and sometimes fills of clouds next to them, to a long record."""
    r = S["radar"]
    two = [k for k in ("Zh", "v", "width", "ldr", "sldr") if k in r and np.ndim(r[k]) == 2]
    for k in two:
        r[k] = ma.array(r[k], copy=True)
        r[k].mask = ma.getmaskarray(r[k]).copy()
    b = np.floor(np.asarray(r["time"], "f8") * 120).astype(int)
    nt, ng = r["Zh"].shape
    if rng.random() < .5:  # less cloud, so that the stripes stand out
        hide = np.zeros((nt, ng), bool)
        hide[:, int(rng.integers(0, ng // 2)):] = True
        for k in two:
            r[k][hide] = ma.masked

    def put(sel):
        for k in two:
            m = sel if k not in ("ldr", "sldr") else sel & (rng.random(sel.shape) < rng.choice([.4, 1.0]))
            x = {"Zh": rng.uniform(-45, -15, sel.shape), "v": ma.getdata(r["v"]),
                 "width": rng.uniform(.05, 1, sel.shape)}.get(k, rng.uniform(-25, -12, sel.shape))
            r[k][m] = x[m]

    bins = np.unique(b)
    v0 = ma.getdata(r["v"])
    # samples of a bin differ clearly
    r["v"] = ma.array(np.where(np.abs(v0) < .1, v0, np.sign(v0) * .1) + np.array([-.45, 0, .5])[np.arange(nt) % 3][:, None] + rng.uniform(-.05, .05, v0.shape), mask=r["v"].mask)
    for _ in range(int(rng.integers(4, 14))):
        i = int(rng.integers(0, bins.size - 4))
        rows = np.isin(b, bins[i:i + int(rng.choice([1, 1, 1, 2, 3]))])
        put(rows[:, None] & (rng.random(ng) < rng.choice([.4, .5, .7, 1.0]))[None, :])
    for _ in range(int(rng.integers(1, 6))):
        g = int(rng.integers(0, ng - 2))
        g = slice(g, g + int(rng.choice([1, 1, 2])))
        sel = np.zeros((nt, ng), bool)
        sel[:, g] = np.isin(b, bins[rng.random(bins.size) < rng.choice([.08, .3, .8])])[:, None]
        put(sel)
    for _ in range(int(rng.integers(0, 4))):  # cloud continuing beside a stripe
        i = int(rng.integers(6, bins.size - 8))
        g = int(rng.integers(0, ng - 10))
        sel = np.zeros((nt, ng), bool)
        sel[:, g:g + 8] = np.isin(b, bins[i:i + 2])[:, None]
        put(sel)


def run_case(spec, tmp):
    from cloudnetpy.categorize import generate_categorize
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    S = gen.scene(rng, **spec.get("o", {}))
    if spec["k"] == "rain":
        rr = S["radar"]["rainfall_rate"]
        if spec["rr"] == "zero":
            rr[:] = 0.0
            rr[: len(rr) // 3] = ma.masked
        elif spec["rr"] == "masked":
            rr[:] = ma.masked
    if spec["k"] == "long":
        stripes(rng, S)
    if spec["seed"] % 5 == 0:  # time in seconds
        S["radar"]["time"] = S["radar"]["time"] * 3600
    files = gen.write_scene(S, tmp)
    out = f"{tmp}/cat.nc"
    generate_categorize(files, out)
    compare(obs, files, out)
    r = S["radar"]
    obs.sig = f"{S['kind']}-{r['nyq_mode']}-{'ldr' in r}-{'sldr' in r}-{'correction_bits' in r}-{len(r['time'])}-{len(r['range'])}"
    obs.nontrivial = obs.counts.get("pix_Z", 0) > 200
    obs.sample = {"seed": spec["seed"], "radar": S["kind"], "profiles_in": len(r["time"]),
                  "gates": len(r["range"]), "pixels_compared": obs.counts.get("pix_Z", 0)}
    return obs


def compare(obs, files, out):
    I = Inputs(files)
    o, attrs = gen.read(out)
    bins, F, weak, deal = I.binned()
    kept = np.round(np.array(o["time"], dtype="f8") * 120 - 0.5).astype(int)
    row = {b: i for i, b in enumerate(bins)}
    if not obs.check(all(k in row for k in kept), "bin-without-radar", lambda: str([k for k in kept if k not in row][:5])):
        return
    sel = np.array([row[k] for k in kept])
    amb = set(I.bin[I.edge_amb].tolist()) | set((I.bin[I.edge_amb] - 1).tolist())
    okrow = np.array([k not in amb for k in kept])
    F = {k: (v[sel], m[sel]) for k, (v, m) in F.items()}
    weak = weak[sel]
    nyq = F.pop("nyquist_velocity")[0]
    masks = completeness(F, I.a["radar"]["source"], "width" in F)
    if len(kept) >= 300:
        ex, em = F["v_sigma"]
        if (~em & (ex < 2e-3)).any() or (np.abs(F["v"][0][:, 0] - 4) < 1e-3).any() or not okrow.all():
            obs.n("long_ambiguous")
            return
        for k, n in completeness.stats.items():
            obs.n(k, n)
    Zraw = ma.array(o["Z"])
    att = np.zeros(Zraw.shape)
    for k in ("radar_gas_atten", "radar_liquid_atten", "radar_rain_atten", "radar_melting_atten"):
        att += np.array(o[k].filled(0), dtype="f8")
    got = {"Z": ma.array(Zraw.astype("f8") - att, mask=ma.getmaskarray(Zraw))}
    for k in F:
        if k != "Z":
            if not obs.check(k in o, f"missing-variable-{k}"):
                return
            got[k] = o[k].astype("f8")
    # v may be ambiguous where the mean vector vanishes or at the fold
    pos = np.abs(F["v"][0])
    tol = {"Z": 2e-3, "v": 2e-3, "v_sigma": 2e-3, "width": 1e-4, "ldr": 2e-3, "sldr": 2e-3}
    for k in F:
        exp, em = F[k][0], masks[k]
        gm = ma.getmaskarray(got[k])
        diff_m = (gm != em) & okrow[:, None]
        zero = None
        if k == "v_sigma":
            # spread indistinguishable from zero is documented as missing; then also the
            # neighbours in time may be removed as isolated
            tiny = ~em & (exp < 2e-3)
            pad = np.pad(tiny, ((1, 1), (0, 0)))
            diff_m &= ~(tiny | pad[:-2] | pad[2:])
        if k == "v":
            pass
        # a first-gate velocity within rounding of the 4 m/s limit is ambiguous
        near4 = np.abs(F["v"][0][:, 0] - 4) < 1e-3
        diff_m[near4, 0] = False
        obs.n("mask_pixels", diff_m.size)
        obs.check(not diff_m.any(), f"mask-{k}",
                  lambda: f"{int(diff_m.sum())} pixels; first {np.argwhere(diff_m)[0].tolist()} file-missing={gm[diff_m][0]}")
        both = ~gm & ~em & okrow[:, None]
        d = np.abs(np.array(got[k].filled(0)) - exp)
        if k == "v" and not deal:
            d = np.where(weak, 0, d)
            at_fold = np.abs(pos - nyq) < 5e-3
            d = np.where(at_fold, np.minimum(d, np.abs(d - 2 * nyq)), d)
        if k == "v_sigma":
            both = both & (exp > 2e-3)
        bad = both & ~(d <= tol[k] + 1e-4 * np.abs(exp))
        obs.n(f"pix_{k}", both.sum())
        obs.check(not bad.any(), f"value-{k}",
                  lambda: f"{int(bad.sum())} of {int(both.sum())} pixels; first {np.argwhere(bad)[0].tolist()}"
                          f" file={float(np.array(got[k].filled(0))[bad][0]):.6g} expected={float(exp[bad][0]):.6g}")
    if not deal:
        raw = I.d["radar"]["v"]
        obs.n("pix_folded", int((~ma.getmaskarray(got["v"]) & (pos > 0.7 * nyq)).sum()))
    # folding velocity stored = the largest one of the bin
    if obs.check("nyquist_velocity" in o, "missing-nyquist"):
        g = o["nyquist_velocity"]
        ok = ~ma.getmaskarray(g) & okrow[:, None] if g.shape == nyq.shape else None
        if obs.check(ok is not None, "nyquist-shape", str(g.shape)):
            b = ok & (np.abs(np.array(g.filled(0), dtype="f8") - nyq) > 1e-3)
            obs.n("pix_nyquist", ok.sum())
            obs.check(not b.any(), "value-nyquist_velocity", lambda: str(np.argwhere(b)[0]))
    # rain rate from the radar file if no disdrometer is used
    if "rainfall_rate" in I.d["radar"] and "disdrometer" not in files:
        rr = I.d["radar"]["rainfall_rate"]
        g = o["rainfall_rate"]
        val, m = np.array(rr.filled(0), dtype="f8"), ma.getmaskarray(rr)
        for i, k in enumerate(kept):
            if not okrow[i]:
                continue
            ix = np.where((I.bin == k) & ~m)[0]
            gm = bool(ma.getmaskarray(g)[i])
            obs.n("rain_values")
            if ix.size == 0:
                obs.check(gm, "rain-fabricated", lambda: f"bin {k}: no valid rain sample but file has {g[i]}")
            else:
                obs.check(not gm and abs(float(g[i]) - val[ix].mean()) < 1e-9 + 1e-4 * val[ix].mean(),
                          "rain-value", lambda: f"bin {k}: {g[i]} expected {val[ix].mean()}")
