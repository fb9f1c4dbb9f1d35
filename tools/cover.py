"""cover.py P01 P02 ... : lines of the code under test that the given checks do not execute"""
import ast, glob, json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
with tempfile.TemporaryDirectory() as d:
    for p in sys.argv[1:]:
        r = subprocess.run([sys.executable, V + "/check.py", p], env=dict(os.environ, VERIF_COV=d), capture_output=True, text=True)
        print(p, r.returncode, r.stdout.splitlines()[-1:], flush=True)
    hit = {}
    for f in glob.glob(d + "/*"):
        for n, l in json.load(open(f)):
            hit.setdefault(n, set()).add(l)
for f in sorted(glob.glob(REPO + "/bayes_optim/**/*.py", recursive=True)):
    n = f.split("/bayes_optim/", 1)[1]
    src = open(f).read()
    code = set()
    def lines(c):
        code.update(l for _, _, l in c.co_lines() if l)
        for k in c.co_consts:
            if hasattr(k, "co_lines"):
                lines(k)
    lines(compile(src, f, "exec"))
    miss = sorted(code - hit.get(n, set()))
    if n not in hit:
        print(f"{n}: not loaded ({len(code)} lines)"); continue
    out, fun = [], {}
    for node in ast.walk(ast.parse(src)):
        if isinstance(node, (ast.FunctionDef,)):
            for l in range(node.lineno, node.end_lineno + 1):
                fun[l] = node.name
    by = {}
    for l in miss:
        by.setdefault(fun.get(l, "-"), []).append(l)
    print(f"{n}: {len(code) - len(miss)} of {len(code)}")
    for k, v in by.items():
        print("    ", k, v)
