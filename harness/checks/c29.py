"""C29: the command line runs exactly what was asked, on exactly the files that belong to it."""
import builtins
import contextlib
import datetime
import inspect
import io
import json
import logging
import os
import re
import sys
import threading
from pathlib import Path
from unittest import mock

import numpy as np

from .. import cliworld as cw
from ..runner import Obs

ID, LEVEL = "C29", "exploration"
RULE = ("cloudnetpy.cli.main driven with generated command lines against a data portal in memory (sites, instruments, raw files of every state, product and model files, calibrations, decoys of other days, sites and instruments, "
        "delayed and failing downloads, files left by earlier runs); converters and product functions replaced by stand-ins that record their arguments and the contents of the files given to them; "
        "calls, output tree and downloads compared with a reference of the workflow; distinct by kind and seed")
ASSUMPTIONS = ["the client library of the portal is replaced by one answering from memory", "what converters and products do with their input is judged by the other properties"]
MIN = {"runs": 300, "calls": 1100, "instrument_calls": 350, "categorize_calls": 110, "category_inputs": 350, "derived": 180, "l3": 40, "selected": 380, "prompted": 60, "preferred": 50, "reused": 25, "forced": 30, "plots": 120, "refused": 25,
       "failures": 25, "decoys": 1500, "tree": 1800, "orders": 20, "calibrated": 50, "dl_only": 20, "second_run": 25, "real_variables": 400, "local_mwr": 15}
SUBS = {"radar": "instrument", "lidar": "instrument", "disdrometer": "instrument", "mwr": "instrument", "mwr-l1c": "instrument", "doppler-lidar": "instrument", "model": "instrument"}
CAT = ("classification", "iwc", "lwc", "ier", "der", "drizzle")
L3SRC = {"l3-cf": "categorize", "l3-iwc": "iwc", "l3-lwc": "lwc"}


def cases(tier, seed):
    m = 2 if tier == "quick" else 8
    out = []
    for k, (kind, n) in enumerate((("chain", 300), ("race", 40), ("refuse", 30), ("fail", 40), ("again", 40), ("real", 6))):
        out += [{"seed": seed * 1000000 + k * 10000 + i, "kind": kind} for i in range(n * m)]
    return out


# ------------------------------------------------------------------ stand-ins
class Recorder:
    def __init__(self):
        self.events, self.lock, self.fail, self.n = [], threading.Lock(), None, 0


REC = None
INSTALLED = False


def read(p):
    p = Path(p)
    return p.read_bytes() if p.is_file() else None


def stand_in(name, orig):
    sig = inspect.signature(orig)

    def f(*a, **k):
        if REC is None:
            return orig(*a, **k)
        b = sig.bind(*a, **k)
        b.apply_defaults()
        arg = dict(b.arguments)
        rec = REC
        ev = {"fn": name, "arg": arg, "seen": {}}
        for key, v in arg.items():
            if key in ("site_meta",):
                ev["coeff"] = [read(p) for p in v.get("coefficientFiles", [])] if isinstance(v, dict) else []
                arg[key] = dict(v)
            elif key in ("output_file", "output_filename", "save_path"):
                continue
            elif isinstance(v, dict):
                ev["seen"][key] = {n: [read(x) for x in (p if isinstance(p, list) else [p])] if p is not None else None for n, p in v.items()} if name == "generate_categorize" and key == "input_files" else v
            elif isinstance(v, (list, tuple)) and v and isinstance(v[0], (str, os.PathLike)) and Path(v[0]).exists():
                ev["seen"][key] = [cw.tokens_of(p) for p in v]
            elif isinstance(v, (str, os.PathLike)) and os.path.isdir(v):
                ev["seen"][key] = {q.name: cw.tokens_of(q) for q in Path(v).iterdir() if q.is_file()}
            elif isinstance(v, (str, os.PathLike)) and os.path.isfile(v):
                ev["seen"][key] = cw.tokens_of(v) if key in RAW_ARGS else read(v)
        out = arg.get("output_file")
        with rec.lock:
            rec.n += 1
            n = rec.n
            rec.events.append(ev)
        if rec.fail is not None and rec.fail(name, arg):
            raise ValueError("stand-in fails: " + name)
        if out is not None:
            Path(out).write_bytes(f"OUT {n} {name}\n".encode())
            ev["out"] = read(out)
        return None
    return f


RAW_ARGS = ("raw_mira", "path_to_l1_files", "basta_file", "raw_files", "disdrometer_file", "input_data", "full_path", "path_to_files", "mwr_dir", "input_file", "weather_station_file")


def install():
    global INSTALLED
    if INSTALLED:
        return
    import cloudnetpy.categorize
    import cloudnetpy.instruments
    import cloudnetpy.model_evaluation.plotting.plotting as lp
    import cloudnetpy.model_evaluation.products.product_resampling as lr
    import cloudnetpy.plotting
    import cloudnetpy.products
    table = {}
    for name in set(cw.CONVERTER.values()) | {"hatpro2l1c"}:
        table[id(getattr(cloudnetpy.instruments, name))] = stand_in(name, getattr(cloudnetpy.instruments, name))
    for name in [n for n in dir(cloudnetpy.products) if n.startswith("generate_")]:
        table[id(getattr(cloudnetpy.products, name))] = stand_in(name, getattr(cloudnetpy.products, name))
    for mod, name in ((cloudnetpy.categorize, "generate_categorize"), (lr, "process_L3_day_product"), (lp, "generate_L3_day_plots"), (cloudnetpy.plotting, "generate_figure")):
        table[id(getattr(mod, name))] = stand_in(name, getattr(mod, name))
    cw.replace_everywhere(table)
    import cloudnetpy.cli  # noqa: F401
    cw.replace_everywhere(table)
    INSTALLED = True


# ------------------------------------------------------------------ scenario
class Scene:
    pass


def build(rng, tmp, kind):
    s = Scene()
    w = s.w = cw.World(rng, Path(tmp) / "portal")
    s.site = w.sites_[0] if rng.random() < .5 else w.sites_[int(rng.integers(0, 2))]
    s.date = cw.DATE + datetime.timedelta(days=int(rng.integers(0, 200)))
    other_site, other_day = w.sites_[3], s.date + datetime.timedelta(days=int(rng.choice([-1, 1, 365])))
    s.out = Path(tmp) / str(rng.choice(["output", "categorize", "out.nc.d", "results/categorize products"]))
    s.inp = Path(tmp) / "input"
    s.token, s.raw_tok, s.insts = 0, {}, {}
    s.counter = 0

    def raw(inst, site, day, suffix, status="uploaded", zipped=False):
        s.token += 1
        data = cw.raw_bytes(w, inst.instrument_id, s.token, day)
        name = f"{rng.choice(['a', 'm', 'z'])}{s.token:04d}_{day:%Y%m%d}{suffix}"
        if zipped:
            data, name = cw.gz(data), name + ".gz"
        m = w.add_raw(inst, site, day, name, data, status)
        s.raw_tok[m.uuid] = s.token
        return m

    def portal_file(product, site, day, inst=None, model=None):
        s.counter += 1
        tail = f"{inst.instrument_id}_{inst.pid.split('.')[-1][:8]}" if inst else model.id if model else product
        if product in ("mwr-l1c", "doppler-lidar"):
            tail += "_" + product
        return w.add_file(product, site, day, f"{day:%Y%m%d}_{site.id}_{tail}.nc", f"PORTAL {s.counter} {product}\n".encode(), inst, model)

    hat = [w.instrument("hatpro") for _ in range(int(rng.choice([0, 1, 1, 1, 2])))]
    for p, ids in cw.INSTRUMENTS.items():
        n = int(rng.choice([0, 1, 1, 1, 2, 3]))
        s.insts[p] = hat if p.startswith("mwr") else [w.instrument(str(rng.choice(ids))) for _ in range(n)]
    for inst in {i.pid: i for v in s.insts.values() for i in v}.values():
        fam = cw.family(inst.instrument_id)
        k = 1 if fam == "basta" and rng.random() < .8 else int(rng.integers(1, 5))
        sufs = [cw.SUFFIX[fam]] * k
        if fam == "hatpro":
            sufs = [x for x in (".LWP", ".lwp.nc", ".IWV", ".BRT", ".nc", ".HKD") if rng.random() < .7] or [".BRT"]
        elif fam == "rpg":
            sufs += [".LV0"] * int(rng.integers(0, 3))
            if rng.random() < .08:
                sufs = [".LV0", ".lv0"]
        for x in sufs:
            raw(inst, s.site, s.date, x, status=str(rng.choice(["uploaded", "processed"])), zipped=fam in ("mira", "parsivel", "thies", "cl31", "pollyxt", "chm15k", "rpg") and x.lower() != ".lv0" and rng.random() < .3)
        raw(inst, s.site, s.date, cw.SUFFIX[fam], status=str(rng.choice(["created", "invalid"])))
        raw(inst, s.site, other_day, cw.SUFFIX[fam])
        raw(inst, other_site, s.date, cw.SUFFIX[fam])
        if rng.random() < .4:
            c = {}
            for key, v in (("range_correction_factor", 1.5), ("snr_limit", 31), ("calibration_factor", 2e-7), ("some_key", "x")):
                if rng.random() < .7:
                    c[key] = v
            w.cal[inst.pid, s.date] = c
        if fam == "hatpro":
            links = [f"https://example.org/coeff/{inst.pid[-4:]}_{j}.nc" for j in range(3)]
            w.cal[inst.pid, s.date] = {"retrieval_coefficients": [{"links": links}], "azimuth": 5}
            for x in links:
                w.links[x] = ("COEFF " + x).encode()
        w.cal[inst.pid, other_day] = {"range_correction_factor": 9.9, "snr_limit": 99, "calibration_factor": 99, "retrieval_coefficients": [{"links": ["https://example.org/wrong"]}]}
    # product files of the portal, made of the same and of other instruments
    for p in ("radar", "lidar", "disdrometer", "mwr", "mwr-l1c"):
        for inst in list(s.insts[p]) + ([w.instrument(str(rng.choice(cw.INSTRUMENTS[p])))] if rng.random() < .3 else []):
            if rng.random() < .65:
                portal_file(p, s.site, s.date, inst)
            portal_file(p, s.site, other_day, inst)
            portal_file(p, other_site, s.date, inst)
    if rng.random() < .4:
        portal_file("doppler-lidar", s.site, s.date, w.instrument("halo-doppler-lidar"))
    for p in ("categorize", "iwc", "lwc", "mwr-single"):
        if rng.random() < .7 if p != "mwr-single" else rng.random() < .4:
            portal_file(p, s.site, s.date)
        portal_file(p, other_site, s.date)
        portal_file(p, s.site, other_day)
    for m in w.models_:
        if rng.random() < .75:
            portal_file("model", s.site, s.date, model=m)
        portal_file("model", other_site, s.date, model=m)
        portal_file("model", s.site, other_day, model=m)
    for lst in (w.raws, w.files_):
        lst[:] = [lst[int(i)] for i in rng.permutation(len(lst))]
    # names a portal would not give twice in one folder
    seen = set()
    w.files_[:] = [m for m in w.files_ if (m.site.id, m.measurement_date, m.filename) not in seen and not seen.add((m.site.id, m.measurement_date, m.filename))]
    choose(rng, s, kind)
    for m in (*w.raws, *w.files_):
        if rng.random() < .5:
            w.delay[m.download_url] = float(rng.choice([0, 0.001, 0.004, 0.01]))
    return s


def choose(rng, s, kind):
    """the command line"""
    avail = [p for p in cw.INSTRUMENTS if rng.random() < .4]
    l2 = ["categorize"] if rng.random() < .6 else []
    l2 += [p for p in CAT if rng.random() < .25]
    l2 += [p for p in ("mwr-single", "mwr-multi", "epsilon-radar", *L3SRC) if rng.random() < .2]
    plist = avail + l2
    if not plist:
        plist = ["categorize"]
    plist = [plist[int(i)] for i in rng.permutation(len(plist))]
    s.bracket, s.prefs, s.opts = {}, {}, []
    for p in list(plist):
        if p in cw.INSTRUMENTS and rng.random() < .2:
            s.bracket[p] = str(rng.choice([i.instrument_id for i in s.insts[p]] or cw.INSTRUMENTS[p]))
    for p in ("radar", "lidar", "disdrometer", "mwr"):
        if rng.random() < .3:
            cand = [i.pid for i in s.insts[p]] + [i.instrument_id for i in s.insts[p]] + [str(rng.choice(cw.INSTRUMENTS[p])), "https://hdl.handle.net/21.12132/3.0000000000000000"]
            if p == "lidar" and rng.random() < .5:
                cand = ["halo-doppler-lidar"] + cand
            k = int(rng.integers(1, 4))
            pick = [cand[int(i)] for i in rng.permutation(len(cand))[:k]]
            s.prefs[p] = list(dict.fromkeys(pick))
    s.products = plist
    unknown = ["nonsense"] if rng.random() < .1 else []
    s.model = str(rng.choice([m.id for m in s.w.models_])) if rng.random() < .4 else None
    s.options = {"temperature_offset": float(rng.integers(-3, 4))} if rng.random() < .3 else None
    s.dl = bool(rng.random() < .12)
    s.force = bool(rng.random() < .25)
    s.plot, s.show = bool(rng.random() < .25), bool(rng.random() < .05)
    s.variables = ["Zh", "v"] if rng.random() < .4 else None
    s.max_y = int(rng.integers(1, 15)) if rng.random() < .3 else None
    a = [str(rng.choice(["-s", "--site"])), s.site.id, "-d", str(s.date), "-p", ",".join(f"{p}[{s.bracket[p]}]" if p in s.bracket else p for p in plist + unknown), "--input", str(s.inp), "--output", str(s.out)]
    for p, v in s.prefs.items():
        if rng.random() < .5:
            a += ["-i", f"{p}:{','.join(v)}"]
        else:
            for x in v:
                a += ["--instrument", f"{p}:{x}"]
    a += ["-m", s.model] if s.model else []
    a += ["-o", json.dumps(s.options)] if s.options else []
    a += [x for x, f in (("--dl", s.dl), ("--force-download", s.force), ("--plot", s.plot), ("--show", s.show)) if f]
    a += ["-v", ",".join(s.variables)] if s.variables else []
    a += ["--max-y", str(s.max_y)] if s.max_y else []
    s.argv = a


# ------------------------------------------------------------------ run
def run_cli(s, rng, tmp, argv=None, passing=False):
    """-> events, exception, log text, prompts"""
    global REC
    from cloudnetpy import cli
    rec = Recorder()
    REC = None if passing else rec
    rec.fail = getattr(s, "fail", None)
    cw.Client.world = s.w
    s.w.calls.clear()
    log = io.StringIO()
    prompts = []

    def ask(text=""):
        shown = log.getvalue().split("\n")
        menu = {}
        for line in reversed(shown):
            m = re.search(r"(\d+)\W.*(https://hdl\S+?)\)?$", line)
            if m:
                menu[m[2]] = m[1]
            elif menu:
                break
        r = rng.random()
        if not menu or r < .2:
            ans = str(rng.choice(["", "abc", "0", "99", "-1", "EOF"]))
            prompts.append(None if menu or True else "?")
            if ans == "EOF":
                raise EOFError
            return ans
        pid = sorted(menu)[int(rng.integers(0, len(menu)))]
        prompts.append(pid)
        return menu[pid]

    class Response:
        def __init__(self, content):
            self.content, self.status_code, self.ok, self.text = content, 200, True, content.decode()

        def raise_for_status(self):
            pass

        def json(self):
            return json.loads(self.content)

    def get(url, *a, **k):
        if url in s.w.links:
            return Response(s.w.links[url])
        if url.endswith("products/variables"):
            return Response(json.dumps([{"id": p, "variables": [{"id": f"{p}-{v}"} for v in ("one", "two")]} for p in (*cw.INSTRUMENTS, *cw.SOURCES, *cw.EVAL)]).encode())
        raise ConnectionError(url)

    root = logging.getLogger()
    keep = root.handlers[:], root.level, logging.root.manager.disable
    import cloudnet_api_client
    import requests
    cwd = Path(tmp) / "cwd"
    cwd.mkdir(exist_ok=True)
    old = os.getcwd()
    exc = None
    try:
        logging.disable(logging.NOTSET)
        os.chdir(cwd)
        with contextlib.ExitStack() as st:
            st.enter_context(contextlib.redirect_stderr(log))
            st.enter_context(contextlib.redirect_stdout(io.StringIO()))
            st.enter_context(mock.patch.object(cloudnet_api_client, "APIClient", cw.Client))
            if hasattr(cli, "APIClient"):
                st.enter_context(mock.patch.object(cli, "APIClient", cw.Client))
            st.enter_context(mock.patch.object(requests, "get", get))
            st.enter_context(mock.patch.object(requests.Session, "get", lambda self, url, *a, **k: get(url)))
            st.enter_context(mock.patch.object(builtins, "input", ask))
            st.enter_context(mock.patch.object(sys, "argv", ["cloudnetpy", *(argv or s.argv)]))
            try:
                cli.main()
            except (Exception, SystemExit) as e:  # noqa: BLE001
                exc = e
    finally:
        os.chdir(old)
        REC = None
        root.handlers, root.level = keep[0], keep[1]
        logging.disable(keep[2])
    return rec.events, exc, log.getvalue(), prompts


# ------------------------------------------------------------------ reference
class Expect:
    def __init__(self):
        self.calls, self.tree, self.plots, self.raises, self.l3plots = [], set(), [], None, []


def is_pid(v):
    return v.startswith("https://hdl.handle.net/")


def matches(inst, v):
    return inst is not None and (inst.pid == v if is_pid(v) else inst.instrument_id == v)


def short(pid):
    return pid.split(".")[-1][:8]


def select(s, p, prompts):
    """-> instrument or None; takes answers of the prompts in order"""
    prefs = s.prefs.get(p, [])
    ids = None
    if p in s.bracket:
        ids = [s.bracket[p]]
    elif prefs and not any(map(is_pid, prefs)):
        ids = prefs
    ids = [x for x in ids or [] if x in cw.INSTRUMENTS[p]] or list(cw.INSTRUMENTS[p])
    metas = [m for m in s.w.raws if m.site.id == s.site.id and m.measurement_date == s.date and m.status in ("uploaded", "processed") and m.instrument.instrument_id in ids]
    insts = {m.instrument.pid: m.instrument for m in metas}
    for v in prefs:
        hit = sorted((i for i in insts.values() if matches(i, v)), key=lambda i: i.name)
        if hit:
            return hit, metas, "preferred"
    if len(insts) > 1:
        pid = prompts.pop(0) if prompts else None
        return ([insts[pid]] if pid in insts else []), metas, "prompted"
    return list(insts.values()), metas, "single"


def suitable(m, p):
    n = m.filename.lower()
    return not (p == "radar" and n.endswith(".lv0") or p == "mwr" and not re.search(r"\.(lwp|iwv)", n) or p == "mwr-l1c" and n.endswith(".nc"))


def judge(obs, s, events, exc, prompts, pre):
    """compares what was called with what the command line asks for; pre: contents of files there before"""
    w, day = s.w, f"{s.date:%Y%m%d}"
    base = s.out / s.site.id / str(s.date)
    prompts = list(prompts)
    left = list(events)
    tree, made = {}, {}

    def take(fn, out):
        for e in left:
            if e["fn"] == fn and (out is None or same_path(e["arg"].get("output_file"), out)):
                left.remove(e)
                return e
        return None

    def folder(kind):
        return base / kind

    def contents(m):
        """what a file of the portal is after it has been fetched"""
        dest = folder("geophysical" if "geophysical" in m.product.type else "instrument") / m.filename
        if str(dest) in made:
            return made[str(dest)]
        if str(dest) in pre and not s.force:
            obs.n("reused")
            return pre[str(dest)]
        if str(dest) in pre:
            obs.n("forced")
        return w.content[m.download_url]

    def portal(p, prefer=None):
        return [m for m in w.files_ if m.product.id == p and m.site.id == s.site.id and m.measurement_date == s.date and (prefer is None or matches(m.instrument, prefer))]

    def place(m):
        d = folder("geophysical" if "geophysical" in m.product.type else "instrument") / m.filename
        tree[str(d)] = m

    def model_file(model=None):
        c = [m for m in portal("model")]
        model = model or s.model
        c = [m for m in c if model is None or m.model.id == model]
        return min(c, key=lambda m: m.model.optimum_order) if c else None

    optional = set()
    # --- instrument products
    for p in [p for p in s.products if p in cw.INSTRUMENTS]:
        hit, metas, how = select(s, p, prompts)
        if how == "prompted":
            obs.n("prompted")
        if not hit:
            continue
        obs.n("selected")
        if how == "preferred":
            obs.n("preferred")
        if len(hit) > 1:  # several devices match the preference: any of them will do
            ran = [i for i in hit if any(same_path(e["arg"].get("output_file"), inst_path(s, i)) for e in left)]
            if s.dl:
                ran = [i for i in hit if any(c[1].instrument.pid == i.pid for c in w.calls if hasattr(c[1], "status"))]
            hit = ran[:1] or hit[:1]
        inst = hit[0]
        metas = [m for m in metas if m.instrument.pid == inst.pid]
        obs.n("decoys", sum(1 for m in w.raws if m.instrument.pid == inst.pid) - len(metas))
        metas = [m for m in metas if suitable(m, p)]
        if not metas:
            continue
        fam = cw.family(inst.instrument_id)
        d = s.inp / s.site.id / str(s.date) / f"{inst.instrument_id}_{short(inst.pid)}"
        for m in metas:
            tree[str(d / m.filename)] = m
            if m.filename.endswith(".gz"):
                tree[str(d / m.filename[:-3])] = None
        for m in metas:
            f = d / m.filename
            want = pre.get(str(f)) if not s.force and len(pre.get(str(f)) or b"") == m.size else None
            obs.check(read(f) == (want or w.content[m.download_url]), "raw-file-content", lambda f=f: f"{f} differs from the portal (forced: {s.force})")
            if str(f) in pre:
                obs.n("forced" if s.force else "reused")
        if s.dl:
            obs.n("dl_only")
            continue
        if fam == "basta" and len(metas) > 1:
            obs.check(isinstance(exc, ValueError), "basta-several", f"two files for one-file converter: {exc!r}")
            return
        fn = "hatpro2l1c" if p == "mwr-l1c" else cw.CONVERTER[fam]
        out = inst_path(s, inst)
        e = take(fn, None if p == "mwr-l1c" else out)
        if e is not None and p == "mwr-l1c":  # a name of its own next to the product of the same instrument
            out = Path(e["arg"]["output_file"])
            obs.check(same_path(out.parent, folder("instrument")) and out.name.startswith(f"{day}_{s.site.id}_") and out.suffix == ".nc" and str(out) not in made, "l1c-name", str(out))
        if not obs.check(e is not None, f"not-converted:{p}", lambda: f"{s.argv}: no call of {fn} for {inst.instrument_id} {inst.pid}; calls {[(x['fn'], str(x['arg'].get('output_file'))) for x in events]}; {exc!r}"):
            return
        obs.n("instrument_calls")
        tree[str(out)] = None
        made[p] = e["out"]
        made[str(out)] = e["out"]
        check_converter(obs, s, p, inst, fam, metas, e, w)
        s.plots.append((out, p))
    if s.dl:
        obs.check(not left, "dl-processed", lambda: f"{s.argv}: called {[x['fn'] for x in left]}")
        check_tree(obs, s, tree, pre)
        obs.check(exc is None, "dl-failed", lambda: f"{s.argv}: {exc!r}")
        return
    # --- categorize
    cat = None
    if "categorize" in s.products:
        src = {}
        mod = model_file()
        want = {"model": [mod]} if mod else {}
        for p in ("radar", "lidar", "disdrometer"):
            if p in made:
                src[p] = {made[p]}
                continue
            cand = []
            for v in s.prefs.get(p, []):
                cand = portal(p, v) or (portal("doppler-lidar", v) if p == "lidar" else [])
                if cand:
                    break
            want[p] = cand or portal(p)
        if "mwr" in made:
            src["mwr"] = {made["mwr"]}
            obs.n("local_mwr")
        else:
            want["mwr"] = portal("mwr-single") or portal("mwr") or portal("radar", "rpg-fmcw-35") or portal("radar", "rpg-fmcw-94")
        for p, c in want.items():
            if c:
                src[p] = {contents(m) for m in c}
                for m in c:
                    optional.add(str(folder("geophysical" if "geophysical" in m.product.type else "instrument") / m.filename))
        out = folder("geophysical") / f"{day}_{s.site.id}_categorize.nc"
        e = take("generate_categorize", out)
        if mod is None:
            obs.check(e is None, "categorize-without-model", lambda: f"{e['arg']}")
        elif obs.check(e is not None, "no-categorize", lambda: f"{s.argv}: {[x['fn'] for x in events]} {exc!r}"):
            obs.n("categorize_calls")
            tree[str(out)] = None
            seen = {k: v for k, v in e["seen"]["input_files"].items()}
            for p in ("radar", "lidar", "disdrometer", "mwr", "model"):
                got = seen.get(p)
                obs.n("category_inputs")
                if p not in src:
                    obs.check(not got, f"categorize-extra:{p}", lambda p=p: f"{s.argv}: {p} given: {got}")
                    continue
                obs.check(got is not None and len(got) == 1 and got[0] in src[p], f"categorize-input:{p}", lambda p=p: f"{s.argv}: {p} is {got}, should be {src[p]}; made {p in made}")
            obs.check((e["arg"].get("options") or None) == s.options, "categorize-options", f"{e['arg'].get('options')} instead of {s.options}")
            cat = e["out"]
            made["categorize"] = made[str(out)] = cat
            s.plots.append((out, "categorize"))
    # --- products of categorize
    cats = [p for p in s.products if p in CAT]
    if cats:
        if cat is not None:
            srcs = {cat}
        else:
            c = portal("categorize")
            srcs = {contents(m) for m in c}
            for m in c:
                place(m)
        for p in cats:
            out = folder("geophysical") / f"{day}_{s.site.id}_{p}.nc"
            e = take("generate_" + p, out)
            if not srcs:
                obs.check(e is None, "product-without-categorize", p)
                continue
            if obs.check(e is not None, "no-product", lambda p=p: f"{s.argv}: {p} not made: {[(x['fn'], str(x['arg'].get('output_file'))) for x in left]} {exc!r}"):
                obs.n("derived")
                obs.check(e["seen"].get("categorize_file") in srcs, "product-input", lambda p=p: f"{s.argv}: {p} from {e['seen']}, should be {srcs}")
                tree[str(out)] = None
                made[p] = made[str(out)] = e["out"]
                s.plots.append((out, p))
    # --- products of MWR level 1c
    for p in [p for p in s.products if p in ("mwr-single", "mwr-multi")]:
        if "mwr-l1c" in made:
            srcs = {made["mwr-l1c"]}
        else:
            c = portal("mwr-l1c")
            srcs = {contents(m) for m in c}
            optional |= {str(folder("instrument") / m.filename) for m in c}
        e = take("generate_" + p.replace("-", "_"), None)
        if not srcs:
            obs.check(e is None, "mwr-without-l1c", p)
        elif obs.check(e is not None, "no-mwr-product", lambda p=p: f"{s.argv}: {p} not made; {exc!r}"):
            obs.n("derived")
            obs.check(e["seen"].get("mwr_l1c_file") in srcs, "mwr-product-input", lambda: f"{e['seen']} should be {srcs}")
            out = Path(e["arg"]["output_file"])
            obs.check(same_path(out.parent, folder("geophysical")) and re.fullmatch(rf"{s.date}_{s.site.id}_{p}\.nc|{day}_{s.site.id}_{p}\.nc", out.name), "mwr-product-name", str(out))
            tree[str(out)] = None
            s.plots.append((out, p))
    # --- dissipation rate
    if "epsilon-radar" in s.products:
        c = [] if "radar" in made else portal("radar")
        srcs = {made["radar"]} if "radar" in made else {contents(m) for m in c}
        optional |= {str(folder("instrument") / m.filename) for m in c}
        mod = model_file()
        out = folder("geophysical") / f"{day}_{s.site.id}_epsilon-radar.nc"
        e = take("generate_epsilon_from_radar", out)
        if not srcs or mod is None:
            obs.check(e is None, "epsilon-without-input", str(e))
        elif obs.check(e is not None, "no-epsilon", lambda: f"{s.argv}: {exc!r}"):
            obs.n("derived")
            obs.check(e["seen"].get("radar_file") in srcs, "epsilon-radar-input", lambda: f"{e['seen']} should be {srcs}")
            obs.check(e["seen"].get("model_file") == contents(mod), "epsilon-model", lambda: f"{e['seen']} should be {mod.filename}")
            tree[str(out)] = None
            place(mod)
            s.plots.append((out, "epsilon-radar"))
    # --- model evaluation
    for p in [p for p in s.products if p in L3SRC]:
        q = L3SRC[p]
        c = [] if q in made else portal(q)
        srcs = {made[q]} if q in made else {contents(m) for m in c}
        optional |= {str(folder("geophysical") / m.filename) for m in c}
        model = s.model or "ecmwf"
        mod = model_file(model)
        out = folder("evaluation") / f"{day}_{s.site.id}_{model}_{p}.nc"
        e = take("process_L3_day_product", out)
        if not srcs or mod is None:
            obs.check(e is None, "l3-without-input", lambda: str(e["arg"]))
        elif obs.check(e is not None, "no-l3", lambda p=p: f"{s.argv}: {p}: {[(x['fn'], str(x['arg'].get('output_file'))) for x in left]} {exc!r}"):
            obs.n("l3")
            a = e["arg"]
            obs.check(e["seen"].get("product_file") in srcs, "l3-input", lambda: f"{s.argv}: {e['seen']} should be {srcs}")
            obs.check(e["seen"].get("model_file") == contents(mod), "l3-model-file", lambda: f"{e['seen']} should be {mod.filename}")
            name = next(m.name for m in w.models_ if m.id == model)
            obs.check((a["model"], a["product"], a["model_name"], a["site_name"]) == (model, p[3:], name, s.site.human_readable_name), "l3-arguments", lambda: str(a))
            tree[str(out)] = None
            s.l3plots.append((out, p[3:]))
        if mod is not None:
            optional.add(str(folder("instrument") / mod.filename))
    mod = model_file()
    if mod is not None:
        optional.add(str(folder("instrument") / mod.filename))
    check_plots(obs, s, left)
    obs.check(not [e for e in left if e["fn"] not in ("generate_figure", "generate_L3_day_plots")], "not-asked", lambda: f"{s.argv}: also called {[(e['fn'], str(e['arg'].get('output_file'))) for e in left]}")
    if exc is not None:
        obs.bad("failed", f"{s.argv}: {exc!r}")
        return
    check_tree(obs, s, tree, pre, optional)


def inst_path(s, inst):
    return s.out / s.site.id / str(s.date) / "instrument" / f"{s.date:%Y%m%d}_{s.site.id}_{inst.instrument_id}_{short(inst.pid)}.nc"


def same_path(a, b):
    return a is not None and os.path.realpath(a) == os.path.realpath(b)


def check_converter(obs, s, p, inst, fam, metas, e, w):
    a = e["arg"]
    key = next(k for k in RAW_ARGS if k in a)
    seen = e["seen"].get(key)
    want = sorted(s.raw_tok[m.uuid] for m in metas)
    form = "folder" if p == "mwr-l1c" else cw.FORM[fam]
    names = {m.filename.removesuffix(".gz") for m in metas}
    if form == "folder" or isinstance(seen, dict):
        ok = isinstance(seen, dict) and names <= set(seen)
        # the folder belongs to the device and the day: nothing of others may be there
        mine = {m.filename.removesuffix(".gz") for m in w.raws if m.instrument.pid == inst.pid and m.measurement_date == s.date and m.site.id == s.site.id and m.status in ("uploaded", "processed")}
        if ok:
            ok = set(seen) - {n + ".gz" for n in mine} <= mine and sorted(t for n in names for t in seen[n]) == want
    elif form in ("files",):
        ok = isinstance(seen, list) and sorted(t for x in seen for t in (x if isinstance(x, list) else [x])) == want
    elif form == "one":
        ok = seen == want
    else:
        ok = isinstance(seen, list) and seen and not isinstance(seen[0], list) and sorted(seen, key=str) == sorted(want, key=str)
    obs.check(ok, f"converter-input:{fam}", lambda: f"{s.argv}: {e['fn']} read {a[key]} = {seen}, should be {want} ({sorted(names)})")
    sm, c = a["site_meta"], w.cal.get((inst.pid, s.date), {})
    site = (s.site.human_readable_name, s.site.latitude, s.site.longitude, s.site.altitude)
    obs.check(tuple(sm.get(k) for k in ("name", "latitude", "longitude", "altitude")) == site, "converter-site", lambda: f"{sm} for {site}")
    obs.check(a.get("date") is not None and cw.iso(a["date"]) == s.date, "converter-date", lambda: str(a.get("date")))
    if c:
        obs.n("calibrated")
    if fam == "mira":
        obs.check(sm.get("range_correction_factor") == c.get("range_correction_factor"), "calibration:mira", lambda: f"{sm} {c}")
    elif fam == "pollyxt":
        obs.check(sm.get("snr_limit", 25) == c.get("snr_limit", 25), "calibration:pollyxt", lambda: f"{sm} {c}")
    elif e["fn"] == "ceilo2nc":
        obs.check(sm.get("model") == inst.instrument_id, "ceilo-model", lambda: f"{sm} {inst.instrument_id}")
        if fam != "cl61d":
            obs.check(sm.get("calibration_factor") == c.get("calibration_factor"), "calibration:ceilo", lambda: f"{sm} {c}")
    elif e["fn"] == "hatpro2l1c":
        links = c["retrieval_coefficients"][0]["links"]
        obs.check(e["coeff"] == [w.links[x] for x in links] and list(sm.get("coefficientLinks", [])) == links and sm.get("azimuth") == 5, "calibration:l1c", lambda: f"{sm} {e['coeff']}")


def check_plots(obs, s, left):
    if not (s.plot or s.show):
        obs.check(not [e for e in left if "igure" in e["fn"] or "plots" in e["fn"]], "plotted-unasked", "")
        return
    for path, p in s.plots:
        e = next((e for e in left if e["fn"] == "generate_figure" and same_path(e["arg"]["filename"], path)), None)
        if not obs.check(e is not None, "no-plot", lambda path=path: f"{s.argv}: {path} not plotted"):
            continue
        left.remove(e)
        obs.n("plots")
        a = e["arg"]
        obs.check(list(a["variables"]) == (s.variables or ["one", "two"]), "plot-variables", lambda: f"{s.argv}: {a['variables']}")
        img = a["output_filename"]
        obs.check((img is None) != s.plot and (img is None or same_path(img, path.with_suffix(".png"))), "plot-name", lambda path=path: f"{path} -> {img}")
        obs.check(bool(a["show"]) == s.show, "plot-show", "")
        obs.check(s.max_y is None or a["options"] is not None and a["options"].max_y == s.max_y, "plot-max-y", lambda: str(a["options"]))
    for path, q in s.l3plots:
        e = next((e for e in left if e["fn"] == "generate_L3_day_plots" and same_path(e["arg"]["nc_file"], path)), None)
        if obs.check(e is not None, "no-l3-plot", lambda path=path: f"{s.argv}: {path} not plotted"):
            left.remove(e)
            obs.n("plots")
            a = e["arg"]
            obs.check(a["product"] == q and (a["var_list"] or None) == s.variables and bool(a["show"]) == s.show and (a["save_path"] is not None) == s.plot, "l3-plot", lambda: str(a))
            obs.check(not s.plot or same_path(a["save_path"], path.parent), "l3-plot-path", lambda: str(a))
    obs.check(not [e for e in left if "figure" in e["fn"] or "plots" in e["fn"]], "plotted-more", lambda: f"{s.argv}: {[e['arg'] for e in left]}")


def walk(*tops):
    return {str(p): p.read_bytes() for t in tops if t.exists() for p in t.rglob("*") if p.is_file()}


def check_tree(obs, s, tree, pre, optional=()):
    now = walk(s.out, s.inp)
    for p in now:
        obs.n("tree")
        obs.check(p in tree or p in pre or p in optional, "stray-file", lambda p=p: f"{s.argv}: wrote {p}")
    for p in tree:
        obs.check(p in now, "file-missing", lambda p=p: f"{s.argv}: no {p}")
    everything = {str(p) for p in s.tmp.rglob("*") if p.is_file()}
    obs.check(not [p for p in everything if p not in now and not p.startswith(str(s.w.root))], "stray-elsewhere", lambda: str(everything - set(now)))


# ------------------------------------------------------------------ cases
def leftovers(rng, s):
    """files of an earlier run, of the same name and size but of other contents"""
    pre = {}
    base = s.out / s.site.id / str(s.date)
    for m in s.w.files_:
        if m.site.id == s.site.id and m.measurement_date == s.date and rng.random() < .3:
            d = base / ("geophysical" if "geophysical" in m.product.type else "instrument") / m.filename
            pre[str(d)] = b"LOCAL " + s.w.content[m.download_url][6:]
    for m in s.w.raws:
        if m.site.id == s.site.id and m.measurement_date == s.date and rng.random() < .15 and m.status in ("uploaded", "processed") and s.force:
            pre[str(s.inp / s.site.id / str(s.date) / f"{m.instrument.instrument_id}_{short(m.instrument.pid)}" / m.filename)] = bytes(len(s.w.content[m.download_url]))
    for p, b in pre.items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        Path(p).write_bytes(b)
    return pre


def run_case(spec, tmp):
    obs = Obs()
    rng = np.random.default_rng(spec["seed"])
    install()
    if spec["kind"] == "real":
        from .. import mie
        with mie.redirected(tmp):
            real(obs, rng, tmp)
        obs.n("runs")
        obs.sig = f"real:{spec['seed']}"
        return obs
    s = build(rng, tmp, spec["kind"])
    s.tmp, s.plots, s.l3plots = Path(tmp), [], []
    {"chain": chain, "race": race, "refuse": refuse, "fail": failing, "again": again}[spec["kind"]](obs, rng, s, tmp)
    obs.n("runs")
    obs.sig = f"{spec['kind']}:{spec['seed']}"
    obs.nontrivial = obs.counts.get("assertions", 0) > 0
    obs.sample = {"argv": " ".join(s.argv)[:200]}
    return obs


def chain(obs, rng, s, tmp):
    pre = leftovers(rng, s) if rng.random() < .5 else {}
    ev, exc, log, prompts = run_cli(s, rng, tmp)
    obs.n("calls", len(ev))
    judge(obs, s, ev, exc, prompts, pre)


def race(obs, rng, s, tmp):
    """the order in which parallel downloads finish does not matter"""
    s.products, s.bracket, s.dl, s.plot, s.show = ["categorize", "classification"], {}, False, False, False
    a = s.argv
    a[a.index("-p") + 1] = ",".join(s.products)
    s.argv = [x for x in a if x not in ("--dl", "--plot", "--show")]
    ref = None
    for k in range(3):
        for i, m in enumerate(s.w.files_):
            s.w.delay[m.download_url] = float(rng.choice([0, 0.003, 0.01, 0.03]))
        s.out = Path(tmp) / f"out{k}"
        s.argv[s.argv.index("--output") + 1] = str(s.out)
        ev, exc, log, prompts = run_cli(s, rng, tmp)
        obs.n("calls", len(ev))
        if k == 0:
            others = walk(s.inp)
            judge(obs, s, ev, exc, prompts, others)
        got = [(e["fn"], {k: v for k, v in (e["seen"].get("input_files") or {}).items()}, e["seen"].get("categorize_file")) for e in ev]
        if ref is None:
            ref = got
        obs.check(got == ref, "order-dependent", lambda: f"{s.argv}: {got} then {ref}")
        obs.n("orders")
        for d in [Path(tmp) / f"out{k}"]:
            import shutil
            shutil.rmtree(d, ignore_errors=True)


def refuse(obs, rng, s, tmp):
    a = list(s.argv)
    how = int(rng.integers(0, 7))
    if how == 0:
        a[1] = "atlantis"
    elif how == 1:
        a += ["-m", "no-such-model"]
    elif how == 2:
        a += ["-m", "icon-iglo"]
    elif how == 3:
        a += ["-i", "radar"]
    elif how == 4:
        a += ["-i", "radar:mira-35,lidar:cl61d"]
    elif how == 5:
        a += ["-o", "{not json"]
    else:
        i = a.index("-p")
        a = a[:i] + a[i + 2:]
    ev, exc, log, prompts = run_cli(s, rng, tmp, a)
    obs.n("refused")
    obs.check(exc is not None and not (isinstance(exc, SystemExit) and not exc.code), "accepted", lambda: f"{a}: {exc!r}")
    obs.check(not ev and not s.w.calls and not walk(s.out, s.inp), "worked-before-refusing", lambda: f"{a}: {[e['fn'] for e in ev]} {len(s.w.calls)}")


def failing(obs, rng, s, tmp):
    """a converter fails, or a download: the command fails and makes nothing of the missing part"""
    s.products = ["radar", "categorize", "iwc"]
    s.bracket, s.prefs, s.dl, s.plot, s.show, s.model = {}, {}, False, False, False, None
    s.argv = ["-s", s.site.id, "-d", str(s.date), "-p", ",".join(s.products), "--input", str(s.inp), "--output", str(s.out)]
    here = [m for m in s.w.files_ if m.site.id == s.site.id and m.measurement_date == s.date]
    mode = str(rng.choice(["convert", "categorize", "download-raw", "download-model", "download-lidar", "download-mwr"]))
    raws = {m.instrument.pid for m in s.w.raws if m.site.id == s.site.id and m.measurement_date == s.date and m.status in ("uploaded", "processed") and m.instrument.instrument_id in cw.INSTRUMENTS["radar"]}
    models = [m for m in here if m.product.id == "model"]
    if mode in ("convert", "download-raw") and not raws or mode in ("categorize", "download-model") and not models or mode == "download-lidar" and not [m for m in here if m.product.id == "lidar"]:
        return
    if mode == "convert":
        s.fail = lambda n, a: n.endswith("2nc")
    elif mode == "categorize":
        s.fail = lambda n, a: n == "generate_categorize"
    elif mode == "download-raw":
        s.w.fail = {m.download_url for m in s.w.raws}
    else:
        k = mode.split("-")[1]
        s.w.fail = {m.download_url for m in here if m.product.id in ((k, "mwr-single") if k == "mwr" else (k,))}
    ev, exc, log, prompts = run_cli(s, rng, tmp)
    fns = [e["fn"] for e in ev]
    obs.n("calls", len(ev))
    started = any(n.endswith("2nc") for n in fns) or any(c[0] == "download" and hasattr(c[1], "status") for c in s.w.calls)
    if mode in ("convert", "download-raw") and not started:
        return  # nothing selected, or no suitable file
    if isinstance(exc, ValueError) and "Multiple input" in str(exc):
        return
    obs.n("failures")
    if mode == "download-mwr":  # goes on without
        e = next((e for e in ev if e["fn"] == "generate_categorize"), None)
        if models and obs.check(e is not None and exc is None, "mwr-failure-stops", lambda: f"{exc!r} {fns}"):
            m = e["seen"]["input_files"].get("mwr")
            obs.check(not m or not any(b is not None and (b"mwr" in b and b"PORTAL" in b) for b in m), "failed-mwr-used", str(m))
        return
    obs.check(exc is not None and not isinstance(exc, SystemExit), "failure-hidden", lambda: f"{mode}: {fns} {s.w.calls[-3:]}")
    if mode in ("convert", "download-raw", "download-model", "download-lidar"):
        obs.check("generate_categorize" not in fns, "went-on", lambda: f"{mode}: {fns}")
    obs.check("generate_iwc" not in fns, "went-on", lambda: f"{mode}: {fns}")


def again(obs, rng, s, tmp):
    """a second run of the same command line: same calls on the same contents, nothing fetched again unless forced"""
    s.dl = False
    s.argv = [x for x in s.argv if x != "--dl"]
    ev1, exc1, _, p1 = run_cli(s, np.random.default_rng(5), tmp)
    first = list(s.w.calls)
    ev2, exc2, _, p2 = run_cli(s, np.random.default_rng(5), tmp)
    obs.n("calls", len(ev1) + len(ev2))
    obs.n("second_run")
    obs.check(type(exc1) is type(exc2), "second-run-fails", lambda: f"{s.argv}: {exc1!r} then {exc2!r}")
    a = [(e["fn"], str(e["arg"].get("output_file"))) for e in ev1]
    b = [(e["fn"], str(e["arg"].get("output_file"))) for e in ev2]
    obs.check(a == b and p1 == p2, "second-run-differs", lambda: f"{s.argv}: {a} then {b}")
    fetched = [c[1].filename for c in s.w.calls if c[0] == "download"]
    if s.force:
        obs.check(exc1 is not None or sorted(fetched) == sorted(c[1].filename for c in first if c[0] == "download"), "not-fetched-again", lambda: f"{s.argv}: {fetched} of {[c[1].filename for c in first]}")
        obs.n("forced")
    else:
        obs.check(not fetched, "fetched-again", lambda: f"{s.argv}: {fetched}")
        obs.n("reused")


def real(obs, rng, tmp):
    """the files made by the command line are those made by calling the functions on the files of the portal"""
    global REC
    import netCDF4
    from cloudnetpy import products
    from cloudnetpy.categorize import generate_categorize

    from .. import gen
    S = gen.scene(rng, dur=.4, ng=40)
    S["date"] = ("2024", "06", "01")
    src = gen.write_scene(S, tmp)
    s = Scene()
    s.tmp, s.date, s.fail = Path(tmp), cw.DATE, None
    w = s.w = cw.World(rng, Path(tmp) / "portal")
    s.site = w.sites_[0]
    s.out, s.inp = Path(tmp) / "output", Path(tmp) / "input"
    iid = {"radar": "mira-35", "lidar": "chm15k", "disdrometer": "parsivel", "mwr": "hatpro"}
    for k, p in src.items():
        if k == "model":
            w.add_file("model", s.site, s.date, "20240601_munich_" + Path(p).name.split("_", 1)[1], Path(p).read_bytes(), model=w.models_[0])
        elif k in iid:
            w.add_file(k, s.site, s.date, f"20240601_munich_{iid[k]}_x.nc", Path(p).read_bytes(), inst=w.instrument(iid[k]))
    opts = {"temperature_offset": float(rng.integers(-4, 5))} if rng.random() < .6 else None
    names = [p for p in CAT if p not in ("lwc", "der") or "mwr" in src]
    s.argv = ["-s", "munich", "-d", "2024-06-01", "-p", ",".join(["categorize", *names]), "--input", str(s.inp), "--output", str(s.out)] + (["-o", json.dumps(opts)] if opts else [])
    run = run_cli(s, rng, tmp, passing=True)
    obs.check(run[1] is None, "real-failed", lambda: repr(run[1]))
    given = {k: str(p) for k, p in src.items() if k in (*iid, "model")}
    cat = str(Path(tmp) / "cat.nc")
    generate_categorize(given, cat, options=opts)
    base = s.out / "munich" / "2024-06-01" / "geophysical"
    for p in ["categorize", *names]:
        ref = cat if p == "categorize" else str(Path(tmp) / f"ref_{p}.nc")
        if p != "categorize":
            getattr(products, "generate_" + p)(cat, ref)
        with netCDF4.Dataset(base / f"20240601_munich_{p}.nc") as a, netCDF4.Dataset(ref) as b:
            obs.check(set(a.variables) == set(b.variables), "real-variables", lambda p=p: f"{p}: {set(a.variables) ^ set(b.variables)}")
            for v in set(a.variables) & set(b.variables):
                x, y = a[v][:], b[v][:]
                obs.n("real_variables")
                obs.check(x.shape == y.shape and np.array_equal(np.ma.getmaskarray(x), np.ma.getmaskarray(y)) and np.array_equal(np.ma.filled(x, 0), np.ma.filled(y, 0)), "real-values", lambda p=p, v=v, x=x, y=y: f"{p}: {v} differs, {int((np.ma.getmaskarray(x) != np.ma.getmaskarray(y)).sum()) if x.shape == y.shape else -1} masks, {np.sum(np.ma.filled(x, 0) != np.ma.filled(y, 0)) if x.shape == y.shape else 0} values, {int(np.isnan(np.ma.filled(x, 0)).sum())} nan")
