#!/usr/bin/env python3
"""developer tool: plant a bug in a scratch copy, confirm its demonstration, run the property's check on it.
usage: from mkseed import seed; seed(id, property, needs, breaks, [(file, old, new)...], demo_source)"""
import os, subprocess, json, shutil, sys
V = "/verif/seeded"
W = "/tmp/seedrepo"
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
os.environ["MPLBACKEND"] = "Agg"
import numpy as np


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)


'''
SH = '''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$d/demo.py"
'''


def fresh():
    subprocess.check_call(["rm", "-rf", W])
    subprocess.check_call(["cp", "-a", "/repo", W])


def demo(i):
    p = subprocess.run(["sh", "%s/%s/demo.sh" % (V, i)], cwd=W, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout[-300:] + p.stderr[-300:])


def seed(i, prop, needs, breaks, edits, src, check=True, tests=False):
    d = os.path.join(V, i)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(HEAD + src)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    fresh()
    r0 = demo(i)
    for f, old, new in edits:
        p = os.path.join(W, "ais_benchmarks", f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    r1 = demo(i)
    msg = "%s %s demo: clean=%d patched=%d" % (i, prop, r0[0], r1[0])
    if r0[0] != 0 or r1[0] == 0:
        msg += "  DEMO BAD " + r0[1] + " | " + r1[1]
    print(msg, flush=True)
    if check:
        run_check(prop)


def run_check(prop):
    p = subprocess.run(["/verif/check", prop], capture_output=True, text=True, env=dict(os.environ, VF_REPO=W))
    lines = [l[:230] for l in p.stdout.splitlines() if not ("obligations discharged, " in l and l.startswith(("h_", "b_")))]
    print("   check exit %d" % p.returncode)
    for l in lines[:6] + lines[-2:]:
        print("     ", l)
