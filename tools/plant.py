#!/usr/bin/env python3
"""Planted-bug helper.  plant.py ID [--checks C01,C02] [--notests]
Applies seeded/ID/patch.diff in a scratch copy of /repo, runs demo.sh there (before, after), the unit tests, and the checks with VERIF_REPO."""
import json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
V = "/verif"
ident = sys.argv[1]
args = sys.argv[2:]
d = f"{V}/seeded/{ident}"
meta = json.load(open(f"{d}/meta.json"))
checks = [meta["property"]]
for i, a in enumerate(args):
    if a == "--checks":
        checks = args[i + 1].split(",")
wt = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], TZ="UTC", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
try:
    subprocess.run(["cp", "-a", "/repo/.", wt], check=True)
    subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
    dd = tempfile.mkdtemp(prefix="demo_", dir="/tmp")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(f"{d}/{f}", dd)
    e = dict(env)
    e.pop("PYTHONPATH", None)
    a = subprocess.run(["bash", f"{dd}/demo.sh"], cwd=wt, env=e, capture_output=True, text=True, timeout=300)
    subprocess.run(["git", "-C", wt, "apply", f"{d}/patch.diff"], check=True)
    b = subprocess.run(["bash", f"{dd}/demo.sh"], cwd=wt, env=e, capture_output=True, text=True, timeout=300)
    shutil.rmtree(dd)
    print(f"{ident}: demo clean={a.returncode} patched={b.returncode}  {(a.stdout + a.stderr)[-300:] if a.returncode else ''} | {(b.stdout + b.stderr)[-200:].strip()}", flush=True)
    if "--notests" not in args:
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                            f"--junitxml={wt}/u.xml"], cwd=wt, env=dict(env, PYTHONPATH=wt), capture_output=True, text=True)
        failed = {f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(f"{wt}/u.xml").iter("testcase") if c.find("failure") is not None or c.find("error") is not None}
        hit = sorted(failed & base)
        print(f"{ident}: tests {r.stdout.strip().splitlines()[-1]}; stable broken: {hit[:5]}", flush=True)
    for c in checks:
        p = subprocess.run([f"{V}/check.sh", c], env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
        lines = [x for x in (p.stdout + p.stderr).splitlines() if "VIOLATION" in x or x.startswith("  ")]
        print(f"{ident}: {c} exit={p.returncode} {'CAUGHT' if p.returncode == 1 else 'MISSED'} {lines[1][:150] if len(lines) > 1 else ''}", flush=True)
finally:
    shutil.rmtree(wt)
