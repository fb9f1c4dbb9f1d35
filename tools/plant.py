#!/usr/bin/env python3
"""Confirm planted changes: plant.py ID... [--notest] [--nocheck].  Works in scratch copies of /repo."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = set(a for a in sys.argv[1:] if a.startswith("--"))
if not ids:
    ids = sorted(os.listdir(os.path.join(V, "seeded")))
sh = lambda c, **k: subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
for i in ids:
    d = os.path.join(V, "seeded", i)
    w = f"/tmp/plant_{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh(f"git -C /repo worktree prune; cp -a /repo {w}/repo")
    r = f"{w}/repo"
    shutil.copytree(d, f"{w}/demo")
    meta = json.load(open(f"{d}/meta.json"))
    out = [i, meta["property"]]
    a = sh(f"bash {w}/demo/demo.sh", cwd=r)
    out.append(f"clean={a.returncode}")
    p = sh(f"git apply {d}/patch.diff", cwd=r)
    if p.returncode:
        print(i, "PATCH FAILS", p.stdout); continue
    b = sh(f"bash {w}/demo/demo.sh", cwd=r)
    out.append(f"patched={b.returncode}")
    if a.returncode or not b.returncode:
        print(a.stdout[-1500:], b.stdout[-1500:])
    if "--notest" not in opt:
        t = open("/opt/vp/test.sh").read().replace("/repo", r).replace("/opt/vp/run.", f"{w}/run.")
        open(f"{w}/test.sh", "w").write(t)
        t = sh(f"bash {w}/test.sh {w}/out.json")
        out.append("tests: " + t.stdout.strip().splitlines()[-1])
        if "62 passed, 0 failed" not in t.stdout:
            j = json.load(open(f"{w}/out.json"))
            out.append(str(j.get("failed", j))[:400])
    if "--nocheck" not in opt:
        c = sh(f"python3 check.py {meta['property']}", cwd=V, env=dict(os.environ, VERIF_REPO=r))
        cl = re.findall(r"clause (\S+)", c.stdout)
        out.append(f"check={c.returncode} {cl}")
        if c.returncode not in (0, 1):
            print(c.stdout[-1500:])
    shutil.rmtree(w, ignore_errors=True)
    print(" | ".join(out), flush=True)
