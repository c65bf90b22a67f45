#!/usr/bin/env python3
"""Tries planted bugs in a scratch copy of the repository: try_bugs.py [--tests] [id ...]

For each bug: does the patch apply, does the demonstration tell the trees apart, do the tests of
the repository pass (--tests) and does the check of its property report it.
"""
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
tests = "--tests" in sys.argv
nocheck = "--nocheck" in sys.argv
work = "/tmp/try-bugs"
copy = work + "/repo"
shutil.rmtree(work, ignore_errors=True)
os.makedirs(work)
subprocess.run(["cp", "-a", "/repo", copy], check=True)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


env = dict(os.environ, PYTHONPATH=copy, VERIF_REPO=copy)
names = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
bad = 0
for n in names:
    d = os.path.join(VERIF, "seeded", n)
    meta = json.load(open(d + "/meta.json"))
    sh(f"git -C {copy} checkout -q -- .")
    line = [f"{n:16s} {meta['property']}"]
    demo = "/tmp/try-bugs/demo"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo)
    r0 = sh(f"bash {demo}/demo.sh", cwd=copy, env=env, timeout=300)
    a = sh(f"git -C {copy} apply {d}/patch.diff")
    r1 = sh(f"bash {demo}/demo.sh", cwd=copy, env=env, timeout=300)
    line.append(f"apply={a.returncode} demo={r0.returncode}/{r1.returncode}")
    if r0.returncode or a.returncode or not r1.returncode:
        bad += 1
        line.append("NOT VALID " + (a.stderr + r0.stderr + r1.stderr)[-600:])
    elif "Traceback" in r1.stderr:
        line.append("(traceback) " + r1.stderr.strip().splitlines()[-1][:150])
    if tests:
        tenv = dict(env, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                    OMP_NUM_THREADS="1")
        sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
           f"-o junit_family=xunit2 --junitxml={work}/junit.xml .", cwd=copy + "/test", env=tenv)
        sh(f"python3 /opt/vp/results.py {work}/res.json junit:{work}/junit.xml")
        o = json.load(open(f"{work}/res.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        miss = [t for t in b["stable"] if t not in o["passed"]]
        line.append("tests ok" if not miss else f"TESTS FAIL {miss[:3]}")
        bad += bool(miss)
    if not nocheck:
        p = meta["property"]
        r = sh(f"{PY} -B check.py {p}", cwd=VERIF, env=env)
        m = re.search(r"^run (\d+): (.*)$", r.stdout, re.M)
        t = re.search(r"([\d.]+)s$", r.stdout, re.M)
        line.append(f"exit={r.returncode} " + (f"run {m.group(1)}: {m.group(2)[:110]}" if m else
                                               "MISSED" if r.returncode == 0 else r.stdout[-500:]))
    print(" ".join(line), flush=True)
shutil.rmtree(work, ignore_errors=True)
sys.exit(bad)
