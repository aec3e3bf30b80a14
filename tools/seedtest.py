#!/usr/bin/env python3
"""Development aid: validate planted bugs in scratch copies and run the checks against them.

seedtest.py [--tests] [--all-checks] ID...   (default: every seeded/*)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = [a for a in sys.argv[1:] if a.startswith("--")]
ids = args or sorted(os.listdir(os.path.join(V, "seeded")))


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(i):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    scratch = tempfile.mkdtemp(prefix=f"seed-{i}-")
    try:
        r = os.path.join(scratch, "repo")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        demo = os.path.join(scratch, "demo")
        shutil.copytree(d, demo)
        env = {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONPATH": os.path.join(r, "src")}
        out = [i, meta["property"]]
        c0, o0 = sh(f"bash {demo}/demo.sh", r, env, 300)
        out.append(f"demo-clean={c0}" + ("" if c0 == 0 else "  <<<< " + o0[-400:]))
        c, o = sh(f"git apply {d}/patch.diff", r)
        if c:
            return out + ["APPLY FAILED " + o]
        c1, o1 = sh(f"bash {demo}/demo.sh", r, env, 300)
        out.append(f"demo-patched={c1}" + ("  <<<<" if c1 == 0 else ""))
        if "--tests" in flags:
            te = dict(env, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0", HOME="/root")
            x = os.path.join(scratch, "j.xml")
            c, o = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=300 --randomly-seed=0 "
                      f"--randomly-dont-reorganize --continue-on-collection-errors -o junit_family=xunit2 --junitxml={x}", r, te)
            c, o = sh(f"python3 /opt/vp/results.py {x}.json junit:{x}", r)
            miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(x + ".json"))["passed"])
            out.append("tests-ok" if not miss else f"TESTS BREAK {sorted(miss)[:3]} <<<<")
        props = [meta["property"]]
        if "--all-checks" in flags:
            props = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
        if "--no-checks" not in flags:
            for p in props:
                vv = os.path.join(scratch, "verif")
                if not os.path.exists(vv):
                    subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", V + "/", vv + "/"])
                c, o = sh(f"python3 check.py {p}", vv, {"VERIF_REPO": r})
                fl = [l.strip() for l in o.splitlines() if "failed:" in l]
                out.append(f"{p}={'CAUGHT' if c == 1 and 'VIOLATION property=' + p in o else 'MISSED' if c == 0 else 'BROKEN ' + o[-600:]}"
                           + (" " + fl[0][:90] if fl else ""))
        return out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


with ThreadPoolExecutor(3) as ex:
    for o in ex.map(one, ids):
        print("  ".join(o), flush=True)
