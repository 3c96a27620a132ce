"""make a seeded bug: mkseed.py SPEC.py   (SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo)"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    s = {}
    exec(open(spec).read(), s)
    W = "/tmp/seedmk-%s" % s["id"]
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(W)
    print("made", s["id"])
