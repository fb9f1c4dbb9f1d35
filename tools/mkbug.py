#!/usr/bin/env python3
"""mkbug.py SPEC.py: creates seeded/<id>/ from a description (dev helper).
SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    w = "/tmp/mkbug_" + g["ID"]
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, a, b in g["EDITS"]:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(a) == 1, (g["ID"], f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    d = os.path.join(V, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(g["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the property holds on the demonstrated history, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" || exit 2
PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= \\
    /opt/venv/bin/python -W ignore "$here/demo.py"
''')
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print(g["ID"], len(diff.splitlines()))
