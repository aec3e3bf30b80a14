#!/usr/bin/env python3
"""Development aid: create seeded/<id> from an edit description.

mkseed.py FILE.py   where FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work"
export PYTHONPATH=$repo/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$work HOME=$work
/opt/venv/bin/python "$here/demo.py"
'''
for s in ns["SEEDS"]:
    d = os.path.join(V, "seeded", s["id"])
    w = tempfile.mkdtemp(prefix="mkseed-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(w, "r", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w + "/r", stdout=subprocess.PIPE, text=True, check=True).stdout
        assert diff
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(d + "/meta.json", "w"), indent=1)
        print(s["id"])
    finally:
        shutil.rmtree(w, ignore_errors=True)
