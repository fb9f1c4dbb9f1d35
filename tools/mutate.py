#!/usr/bin/env python3
"""mutate.py [-j N] [--tests] [PROP...|name...]: applies every change of tools/mutants.py to a scratch copy of /repo and runs
the check of its property on the copy (dev helper: measures what the checks detect)."""
import os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from mutants import M
args = sys.argv[1:]
j = 2
if "-j" in args:
    k = args.index("-j"); j = int(args[k + 1]); del args[k:k + 2]
tests = "--tests" in args
args = [a for a in args if not a.startswith("--")]
sel = [m for m in M if not args or m[0] in args or m[1] in args]
def one(m):
    prop, name, edits = m
    w = f"/tmp/mutants/{name}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(os.path.dirname(w), exist_ok=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, a, b in edits:
        p = f"{w}/bayes_optim/{f}"
        s = open(p).read()
        if s.count(a) < 1:
            shutil.rmtree(w); return f"{prop} {name} NOT FOUND {a!r}"
        open(p, "w").write(s.replace(a, b, 1))
    t0 = time.time()
    out = ""
    if tests:
        t = open("/opt/vp/test.sh").read().replace("/repo", w).replace("/opt/vp/run.", f"{w}.run.")
        open(f"{w}.sh", "w").write(t)
        r = subprocess.run(["bash", f"{w}.sh", f"{w}.json"], capture_output=True, text=True)
        out = "tests: " + (r.stdout.strip().splitlines() or ["?"])[-1]
    r = subprocess.run([sys.executable, V + "/check.py", prop], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    cl = sorted(set(re.findall(r"clause (\S+)", r.stdout)))
    s = {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc={r.returncode} {(r.stdout + r.stderr)[-400:]}")
    shutil.rmtree(w, ignore_errors=True)
    return f"{prop} {name} {s} {cl} {time.time() - t0:.0f}s {out}"
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, sel):
        print(r, flush=True)
