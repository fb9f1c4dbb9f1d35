"""The ask/tell family: design model, generated behaviours, replay, trace judgement."""
import random

from . import core

NAN, PINF, NINF, UNKNOWN = 1000001, 1000002, 1000003, 999999

REAL = ["real2", "real1", "prec", "precoff", "scales", "scalesp", "asym"]
DISC = ["int2", "intstep", "fin6", "fin4", "cat5", "ord"]
MIXED = ["mix", "mix2", "mix3", "mixr", "zero", "subs"]
ALL = REAL + DISC + MIXED
FINITE = ["fin6", "fin4", "cat5", "int2"]
NVAR = dict(real2=2, real1=1, prec=3, precoff=2, scales=4, scalesp=2, asym=3, int2=2, intstep=3, fin6=2, fin4=2,
            cat5=1, ord=2, mix=5, mix2=4, mix3=4, mixr=3, zero=4, subs=2)
BATCH = ["ParallelBO", "AnnealingBO", "SelfAdaptiveBO", "NoisyBO"]


def tla(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"' + x + '"'
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in x) + ">>"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(tla(v) for v in sorted(x, key=repr)) + "}"
    if isinstance(x, dict):
        return "[" + ", ".join(f"{k} |-> {tla(v)}" for k, v in x.items()) + "]"
    raise TypeError(x)


def with_consts(ctx, module, consts, body, name="MC"):
    """Write a wrapper module MC_<...> that defines the constants (sequences cannot be
    written in a configuration file)."""
    import os
    import tempfile
    d = tempfile.mkdtemp(dir=ctx.tmp)
    defs = "\n".join(f"c_{k} == {tla(v)}" for k, v in consts.items())
    with open(os.path.join(d, name + ".tla"), "w") as f:
        f.write(f"---- MODULE {name} ----\nEXTENDS {module}\n{defs}\n====\n")
    cfg = "CONSTANTS\n" + "\n".join(f"  {k} <- c_{k}" for k in consts) + "\n" + body
    return os.path.join(d, name), cfg


def patterns(rng, k=14, fail=0.35, lo=-4, hi=9, length=(2, 5), ties=0.3):
    """value patterns: distinct, tied, constant, failing"""
    out = set()
    while len(out) < k:
        n = rng.randint(*length)
        p = [rng.randint(lo, hi) for _ in range(n)]
        if rng.random() < ties:
            p[rng.randrange(n)] = p[rng.randrange(n)]
        if rng.random() < 0.12 and n >= 3:      # far away, closely spaced values
            p[0], p[1] = 700000 + rng.randint(0, 5), 700000 + rng.randint(0, 5)
        if rng.random() < fail:
            p[rng.randrange(n)] = rng.choice([NAN, NAN, PINF, NINF])
        if rng.random() < 0.06 * (fail > 0):
            p = [rng.choice([NAN, PINF])] * n
        out.add(tuple(p))
    return out


DEF = dict(Kinds={"ask", "tell", "tellf", "rec", "stop"}, Ns={0, 1, 2, 3}, Fixes={0}, Modes={"same"},
           FModes={"new"}, Ks={1, 3}, Raises={0}, Depth=8)


def behaviours(ctx, num, salt=0, fail=0.35, prefix=None, pats=14, **kw):
    """num operation sequences generated by TLC from AskTellGen"""
    rng = random.Random(ctx.seed * 100003 + salt)
    c = dict(DEF, **kw)
    if "Pats" not in kw:
        c["Pats"] = patterns(rng, pats, fail)
    if prefix:
        c["Depth"] = c["Depth"]
    mod, cfg = with_consts(ctx, "AskTellGen", c, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", name="MCGen")
    out = core.simulate(ctx, mod, cfg, num=num, depth=c["Depth"] + 3,
                        seed=ctx.seed * 7919 + salt)
    # TLC may print behaviours with the same prefix; keep the distinct ones first
    seen, uniq = set(), []
    import json
    for ops in out:
        k = json.dumps(ops, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append((prefix or []) + ops)
    ctx.cases += len(uniq)
    return uniq


def scenario(rng, tid, ops, **kw):
    """a configuration around the operations; every field can be forced"""
    g = lambda k, f: kw[k] if k in kw else f()
    ch = rng.choice
    cls = g("cls", lambda: ch(["BO", "ParallelBO", "ParallelBO", "AnnealingBO", "SelfAdaptiveBO", "NoisyBO", "MOBO"]))
    space = g("space", lambda: ch(ALL))
    nobj = g("nobj", lambda: ch([2, 2, 3]) if cls == "MOBO" else 1)
    sc = dict(tid=tid, cls=cls, space=space, nobj=nobj,
              fmt=g("fmt", lambda: ch(["list", "dict"])),
              min=g("min", lambda: [ch([True, False]) for _ in range(nobj)]),
              doe=g("doe", lambda: ch([1, 2, 4, 5])),
              npt=g("npt", lambda: 0 if cls in ("BO", "MOBO") else ch([0, 2, 3])),
              budget=g("budget", lambda: ch([0, 7, 12])),
              target=g("target", lambda: None if cls == "MOBO" else ch([None, None, 0, 3])),
              unit=g("unit", lambda: ch([1.0, 0.25, 1000.0, 0.1])),
              off=g("off", lambda: ch([0.0, 0.0, 512.0, -7.5])),
              cons=g("cons", lambda: "none"),
              csv=g("csv", lambda: False),
              model=g("model", lambda: "stub"),
              corner=g("corner", lambda: ch([None, None, 1.0, -1.0])),
              seed=g("seed", lambda: rng.randrange(1, 10**6)),
              ops=ops)
    if cls == "AnnealingBO" and sc["budget"] <= sc["doe"] + 3:
        sc["budget"] = sc["doe"] + 20       # the schedule needs a finite number of iterations
    for k in ("optimizer", "acq", "acq_par", "aqfe", "aqr", "extra", "critx", "warm", "seeded", "njob", "pof", "precsv"):
        if k in kw and kw[k] is not None:
            sc[k] = kw[k]
    if sc["model"] == "gstub" and space not in REAL:
        sc["model"] = "stub"
    if cls == "MOBO":
        for o in ops:
            if o["op"] in ("step", "run"):
                o["ymode"] = "bypoint"
    sc["key"] = "%s/%s/%s/%s/%s/%s" % (cls, space, sc["fmt"], sc["model"], sc.get("optimizer", "-"), sc["cons"])
    return sc


TRACE_CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def replay(ctx, scs, clauses, job_timeout=240):
    res = core.drive(ctx, "asktell", scs, job_timeout=job_timeout)
    bad = core.judge(ctx, "AskTellTrace", res, TRACE_CFG, clauses=clauses)
    for r in res[:2]:
        ctx.samples.append(dict(scenario={k: v for k, v in r["scenario"].items() if k != "ops"},
                                ops=r["scenario"]["ops"][:6], events=len(r["ev"])))
    return res, bad


def design(ctx, deep=False, mo=None, which=None):
    """exhaustive exploration of the design model; returns a function that waits for it"""
    inv = ["HistExact", "CountsExact", "CsvExact", "RecordOk", "FrontOk", "FitOk", "StopSound"]
    props = ["NoRepeat", "SaveHarmless"]
    runs = [
        dict(Points={1, 2, 3}, Vals={(0,), (1,), (NAN,)}, NObj=1, Mns=[True], DoE=2, NPt=1, Budget=3, Target=1,
             Noisy=False, Warm=[], MaxRep=3),
        dict(Points={1, 2, 3}, Vals={(0,), (1,), (NAN,)}, NObj=1, Mns=[False], DoE=1, NPt=2, Budget=4,
             Target=UNKNOWN, Noisy=True, Warm=[dict(p=1, y=[1]), dict(p=2, y=[NAN])], MaxRep=4),
        dict(Points={1, 2, 3}, Vals={(0, 1), (1, 0), (1, 1), (NAN, 0)}, NObj=2, Mns=[True, False], DoE=2, NPt=1,
             Budget=6, Target=UNKNOWN, Noisy=False, Warm=[], MaxRep=2),
    ]
    if deep:
        runs += [
            dict(Points={1, 2, 3}, Vals={(0,), (1,), (2,), (NAN,)}, NObj=1, Mns=[True], DoE=2, NPt=2, Budget=4,
                 Target=1, Noisy=False, Warm=[], MaxRep=3),
            dict(Points={1, 2, 3}, Vals={(0, 1), (1, 0), (1, 1), (NAN, 0)}, NObj=2, Mns=[False, False], DoE=2,
                 NPt=1, Budget=6, Target=UNKNOWN, Noisy=False, Warm=[dict(p=1, y=[0, 1])], MaxRep=3),
        ]

    def go():
        for k, c in enumerate(runs):
            if mo is not None and (c["NObj"] > 1) != mo:
                continue
            c = dict(c, Fixable={0})
            body = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + \
                "".join(f"INVARIANT {x}\n" for x in inv) + "".join(f"PROPERTY {x}\n" for x in props)
            mod, cfg = with_consts(ctx, "AskTell", c, body, name="MC%d" % k)
            core.model_check(ctx, mod, cfg, name="AskTell/%d" % k)

    return core.background(go)
