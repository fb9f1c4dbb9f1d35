"""Common machinery: TLC runs, parallel harness runs, verdicts, evidence.

Every check has the same shape:
  1. TLC explores the design specification exhaustively (invariants = the property),
  2. TLC generates behaviours / cases from the specification,
  3. the harness replays them into the real code (imported from /repo) and records
     what it observes, without judging it,
  4. TLC judges the recorded observations against the operators of the specification
     (a total verdict: a "BAD" line names trace, step and clause, a "DONE" line closes
     every trace; a missing "DONE" is an error of the machinery, not a verdict).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NPROC = max(1, min(8, os.cpu_count() or 1))


class Crashed(Exception):
    """an operation of the code under test crashed or hung where no outcome but success is specified"""


class MachineryError(Exception):
    pass


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.seed = SEED
        self.states = 0          # distinct states of all TLC runs (design models)
        self.transitions = 0     # states generated by all TLC runs (design models)
        self.judged_steps = 0    # steps judged by the trace specifications
        self.traces = 0          # traces/cases of the real code judged
        self.cases = 0           # behaviours generated from the specification
        self.bad = []            # violations: dict(clause, trace, step, info)
        self.samples = []
        self.notes = []
        self.models = []
        self.exhaustive = []
        self.tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_")

    def quick(self):
        return self.tier != "thorough"

    def n(self, quick, thorough):
        return quick if self.quick() else thorough

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


# ----------------------------------------------------------------------------- TLC
_prn = re.compile(r'^<<"(@[A-Z]+)", (.*)>>$')


def tlc(ctx, module, cfg, env=None, workers=None, args=(), timeout=1500, heap="3g", count=True):
    """Run TLC on spec/<module>.tla with the configuration text `cfg`.
    Returns (returncode, stdout).  Counts distinct and generated states."""
    d = tempfile.mkdtemp(dir=ctx.tmp)
    mdir, mname = os.path.split(module)       # a generated wrapper lives outside spec/
    cfgf = os.path.join(d, mname + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JAVA_CP,
           "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-config", cfgf,
           "-workers", str(workers or NPROC), "-noGenerateSpecTE", *args, module + ".tla"]
    if mdir:
        cmd.insert(1, "-DTLA-Library=" + SPEC)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timeout on {module}")
    finally:
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    if m and count:
        ctx.transitions += int(m[-1][0])
        ctx.states += int(m[-1][1])
    return r.returncode, r.stdout


def tlc_last_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(ctx, module, cfg, name=None, timeout=900, heap="6g", env=None):
    """Exhaustive exploration of a design model.  An invariant violation here means that
    the design (the specification) is inconsistent with the property: machinery error."""
    t = time.time()
    rc, out = tlc(ctx, module, cfg, timeout=timeout, heap=heap, env=env)
    gen, dist = tlc_last_counts(out)
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        raise MachineryError(f"design model {module} failed:\n" + out[-4000:])
    ctx.models.append(dict(model=name or module, distinct_states=dist, generated_states=gen,
                           wall_s=round(time.time() - t, 1)))
    return dist


def _prints(out, tag):
    """Lines printed with PrintT(<<tag, ToJson(x)>>) -> list of decoded x."""
    res = []
    pre = f'<<"{tag}", "'
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('">>'):
            s = line[len(pre):-3]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(s))
    return res


def generate(ctx, module, cfg, tag="@CASE", args=(), timeout=600, workers=1, env=None, count=True,
             heap="3g"):
    """Behaviours/cases printed by a generator specification."""
    rc, out = tlc(ctx, module, cfg, workers=workers, args=args, timeout=timeout, env=env,
                  count=count, heap=heap)
    cases = _prints(out, tag)
    ok = rc == 0 or "-simulate" in args
    if not ok or not cases or "Error:" in out:
        raise MachineryError(f"generator {module} rc={rc} cases={len(cases)}:\n" + out[-1500:])
    return cases


def simulate(ctx, module, cfg, num, depth, tag="@CASE", seed=None, timeout=600, env=None):
    """Random behaviours (TLC -simulate, one worker, fixed seed: deterministic)."""
    s = ctx.seed * 7919 + 17 if seed is None else seed
    return generate(ctx, module, cfg, tag=tag, timeout=timeout, env=env, workers=1,
                    args=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(s),
                          "-deadlock"))


def judge(ctx, module, traces, cfg, clauses=None, chunk=None, timeout=900, env=None, heap="3g"):
    """Judge recorded traces with a trace specification.  `traces` is a list of dicts with a
    unique integer field `tid`.  The module reads the file named by env TRACES and prints
    <<"@BAD", tid, step, clause>> and <<"@DONE", tid>> lines."""
    if not traces:
        raise MachineryError("no traces recorded")
    nchunk = min(NPROC, max(1, len(traces) // 8)) if chunk is None else chunk
    parts = [traces[i::nchunk] for i in range(nchunk)]
    parts = [p for p in parts if p]

    def one(p):
        fd, fn = tempfile.mkstemp(dir=ctx.tmp, suffix=".json")
        with os.fdopen(fd, "w") as f:
            json.dump([{k: v for k, v in t.items() if k != "scenario"} for t in p], f)
        e = dict(env or {})
        e["TRACES"] = fn
        rc, out = tlc(ctx, module, cfg, env=e, workers=1, timeout=timeout, heap=heap, count=False)
        return p, fn, rc, out

    bad = []
    with cf.ThreadPoolExecutor(max_workers=NPROC) as ex:
        for p, fn, rc, out in ex.map(one, parts):
            done = set(int(x) for x in re.findall(r'^<<"@DONE", (\d+)>>$', out, re.M))
            want = set(t["tid"] for t in p)
            if (rc != 0 and done != want and "Finished computing initial states" in out and "OutOfMemory" not in out
                    and re.search(r"Attempted to|unexpected exception|evaluating", out)):
                # the specification cannot interpret what was observed: it is no behaviour of it
                t = next(t for t in p if t["tid"] not in done)
                bad.append(dict(clause=f"{ctx.prop}.malformed", tid=t["tid"], step=0, trace=t, module=module))
            elif rc != 0 or done != want:
                keep = os.path.join(VERIF, "evidence", f"machinery_{ctx.prop}.log")
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                with open(keep, "w") as f:
                    f.write(out)
                raise MachineryError(f"trace specification {module} rc={rc} judged {len(done)} of {len(want)} "
                                     f"traces:\n" + out[-3500:])
            ctx.judged_steps += tlc_last_counts(out)[1]
            byid = {t["tid"]: t for t in p}
            for m in re.finditer(r'^<<"@BAD", (\d+), (\d+), "([^"]*)">>$', out, re.M):
                tid, step, cl = int(m[1]), int(m[2]), m[3]
                if clauses is not None and not any(cl.startswith(c) for c in clauses):
                    continue
                bad.append(dict(clause=cl, tid=tid, step=step, trace=byid[tid], module=module))
    ctx.traces += len(traces)
    seen, res = set(), []
    for b in bad:
        k = (b["tid"], b["step"], b["clause"])
        if k not in seen:
            seen.add(k)
            res.append(b)
    res.sort(key=lambda b: (b["tid"], b["step"], b["clause"]))
    ctx.bad += res
    return res


def background(fun):
    """run fun in a thread; the returned function waits for it and re-raises its error"""
    ex = cf.ThreadPoolExecutor(max_workers=1)
    f = ex.submit(fun)
    return f.result


# ------------------------------------------------------------------------- harness
def harness_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("PYTHON"):
            del e[k]
    e.update(PYTHONPATH=REPO + ":" + os.path.join(VERIF, "harness"), PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg",
             PYTHONWARNINGS="ignore")
    return e


def drive(ctx, script, jobs, nproc=None, job_timeout=90, total_timeout=800, env=None):
    """Run harness/<script>.py over `jobs` (list of dicts) in parallel worker processes.
    Each worker gets a list of jobs and writes a list of results (same order)."""
    nproc = min(nproc or NPROC, len(jobs))
    parts = [list(range(i, len(jobs), nproc)) for i in range(nproc)]
    procs = []
    for k, idx in enumerate(parts):
        d = tempfile.mkdtemp(dir=ctx.tmp, prefix="w")
        inp, outp, log = (os.path.join(d, x) for x in ("in.json", "out.json", "log"))
        with open(inp, "w") as f:
            json.dump([jobs[i] for i in idx], f)
        e = harness_env()
        e.update(env or {})
        e["VERIF_JOB_TIMEOUT"] = str(job_timeout)
        e["TMPDIR"] = d
        lf = open(log, "w")
        p = subprocess.Popen([PY, os.path.join(VERIF, "harness", script + ".py"), inp, outp],
                             cwd=d, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        procs.append((p, idx, outp, log, lf))
    res = [None] * len(jobs)
    tend = time.time() + total_timeout
    err = None
    for p, idx, outp, log, lf in procs:
        try:
            rc = p.wait(max(1, tend - time.time()))
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        lf.close()
        if rc != 0 or not os.path.exists(outp):
            with open(log) as f:
                err = f"harness {script} rc={rc}: " + f.read()[-3000:]
            continue
        with open(outp) as f:
            out = json.load(f)
        if len(out) != len(idx):
            err = f"harness {script}: {len(out)} results for {len(idx)} jobs"
            continue
        for i, o in zip(idx, out):
            res[i] = o
    crashed = [(i, o) for i, o in enumerate(res) if isinstance(o, dict) and "_crash" in o]
    if crashed:
        i, o = crashed[0]
        ctx.bad.append(dict(clause=f"{ctx.prop}.crash", tid=i, step=0, module=script,
                            trace=dict(key=o["_crash"][-300:].replace("\n", " "), crash=o["_crash"], scenario=jobs[i])))
        raise Crashed
    if err:
        raise MachineryError(err)
    return res


# ------------------------------------------------------------------------- verdict
def load_known():
    fn = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(fn):
        with open(fn) as f:
            for line in f:
                line = line.strip()
                m = re.match(r"finding: property=(\S+) clause=(\S+) match=(\S+) (.*)$", line)
                if m:
                    out.append(dict(prop=m[1], clause=m[2], match=m[3], text=m[4]))
    return out


def finish(ctx, level="model_checking", assumptions=()):
    known = [k for k in load_known() if k["prop"] == ctx.prop]
    fresh, hits = [], {}
    for b in ctx.bad:
        key = b["trace"].get("key", "")
        for k in known:
            if re.fullmatch(k["clause"], b["clause"]) and re.search(k["match"], key):
                hits[k["text"]] = hits.get(k["text"], 0) + 1
                break
        else:
            fresh.append(b)
    for k in known:
        print(f"KNOWN-FINDING: property={ctx.prop} {k['text']}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=ctx.prop, tier="thorough" if ctx.tier == "thorough" else "quick",
              seed=ctx.seed, level=level,
              coverage=dict(states=ctx.states, transitions=ctx.transitions,
                            traces_validated_against_impl=ctx.traces,
                            trace_steps_judged=ctx.judged_steps,
                            behaviours_generated=ctx.cases,
                            design_models=ctx.models, notes=ctx.notes,
                            samples=ctx.samples[:4] or ["(none)"]),
              assumptions=list(assumptions), wall_s=round(time.time() - ctx.t0, 2),
              violations=len(fresh))
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = {}
        for b in fresh:
            seen.setdefault(b["clause"], b)
        first = None
        for cl, b in list(seen.items())[:6]:
            h = hashlib.sha1(f"{ctx.prop}{cl}{b['tid']}{b['step']}".encode()).hexdigest()[:10]
            fn = os.path.join(rdir, f"{ctx.prop}_{h}.json")
            with open(fn, "w") as f:
                json.dump(dict(property=ctx.prop, clause=cl, step=b["step"], module=b["module"],
                               seed=ctx.seed, tier=ctx.tier, trace=b["trace"]), f, indent=1)
            print(f"  clause {cl} violated at step {b['step']} of trace {b['tid']} "
                  f"({b['trace'].get('key', '')}); {sum(x['clause'] == cl for x in fresh)} occurrence(s)")
            first = first or fn
        print(f"VIOLATION property={ctx.prop} replay={first}")
        return 1
    print(f"OK property={ctx.prop} states={ctx.states} traces={ctx.traces} steps={ctx.judged_steps} "
          f"wall={ev['wall_s']}s")
    return 0
