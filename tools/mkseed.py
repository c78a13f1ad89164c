#!/opt/venv/bin/python
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS < demo.py : write seeded/ID (development aid)"""
import json, os, subprocess, sys
ID, prop, edits, needs, breaks = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5]
demo = sys.stdin.read()
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
w = "/tmp/w/mk_" + ID
subprocess.run(f"rm -rf {w}; mkdir -p /tmp/w; git -C /repo worktree prune; git clone -q /repo {w}", shell=True, check=True)
for e in json.loads(edits):
    f, a, b = e
    p = os.path.join(w, f)
    s = open(p).read()
    assert s.count(a) == 1, (f, a, s.count(a))
    open(p, "w").write(s.replace(a, b))
open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout)
open(d + "/demo.py", "w").write(demo)
open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
subprocess.run(["rm", "-rf", w])
