"""Authoring helper for planted bugs: bug(id, property, needs, breaks, edits, demo) writes seeded/<id>/."""
import json, os, shutil, subprocess
V, R = "/verif", "/tmp/mkrepo"  # scratch clone of /repo
BASE = "6014ee8"
HEAD = '''import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import numpy as np
from numpy import ma
'''
if not os.path.isdir(R):
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
subprocess.run(["git", "-C", R, "pull", "-q", "--ff-only"], check=False)


def bug(ident, prop, needs, breaks, edits, demo, beside=()):
    d = f"{V}/seeded/{ident}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "repo dirty"
    try:
        for f, old, new in edits:
            s = open(f"{R}/{f}").read()
            assert s.count(old) == 1, (ident, f, s.count(old))
            open(f"{R}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    for f, old, new in edits:  # only lines of the original repository may be changed
        orig = subprocess.run(["git", "-C", R, "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout.splitlines()
        cur = [x[1:] for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]
        added = [x for x in cur if x not in orig]
        if added:
            print("NOT ORIGINAL", ident, added)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.py", "w").write(HEAD + demo.lstrip("\n"))
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC\n'
                                    'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    for f in beside:
        shutil.copy(f"{V}/harness/{f}", d)
