#!/usr/bin/env python3
"""mkseed.py FILE: reads planted bugs described in a Python file (list SEEDS) and writes seeded/<id>/.
Each: dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=C++ text or None, sh=shell text or None)"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {"ROOT": ROOT}
exec(open(sys.argv[1]).read(), g)
WT = "/tmp/mkseedwt"
SH = '''#!/bin/bash
# run in the repository's root after its build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w -include string -include functional -DEIGEN_MAX_CPP_VER=3 -I include -I src -I /usr/include/eigen3 \\
    "$d/demo.cpp" -o "$t/demo" -L _build -lldaplusplus -Wl,-rpath,"$PWD/_build" -pthread || exit 2
cd "$t" && timeout 120 ./demo
'''
shutil.rmtree(WT, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", WT])
for s in g["SEEDS"]:
    for f, old, new in s["edits"]:
        p = os.path.join(WT, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", WT, "diff"], text=True))
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if s.get("demo"):
        open(d + "/demo.cpp", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(s.get("sh") or SH)
shutil.rmtree(WT)
