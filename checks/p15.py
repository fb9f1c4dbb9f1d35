import random

from lib import at, core

BODY = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
OPS = {"none", "json", "sum", "concat", "isum", "slice", "filter", "sub", "isub", "remove", "pop"}


def run(ctx):
    base = dict(Mode="space", MinN=1, N=3, Roots=9, Depth=9, Kinds={"real", "cat"}, Ops=OPS, Ns={0}, Steps=0, NVals=1, Emit=True)

    def laws():
        c = dict(base, N=ctx.n(4, 5), Kinds={"real", "bool"}, Ops={"none", "slice"}, Emit=False)
        mod, cfg = at.with_consts(ctx, "CondGen", c, BODY + "INVARIANT Agree\nINVARIANT Reach\n", name="MCCond")
        core.model_check(ctx, mod, cfg, name="Cond: combinations")
        for sp in ([dict(k="bool", p=0, v=0), dict(k="bool", p=1, v=1), dict(k="real", p=2, v=1), dict(k="real", p=1, v=2)],
                   [dict(k="cat", p=0, v=0), dict(k="real", p=1, v=1), dict(k="real", p=1, v=2), dict(k="real", p=1, v=3)]):
            mod, cfg = at.with_consts(ctx, "CondBO", dict(Space=sp, MaxAsk=2, MaxSteps=3),
                                      BODY + "INVARIANT Once\nINVARIANT Sound\nINVARIANT Cover\nINVARIANT Counts\n", name="MCCondBO")
            core.model_check(ctx, mod, cfg, name="CondBO")

    wait = core.background(laws)
    rng = random.Random(ctx.seed * 3 + 15)
    mod, cfg = at.with_consts(ctx, "CondGen", base, BODY, name="MCCond")
    small = core.generate(ctx, mod, cfg, workers=4)
    ctx.models.append(dict(model="CondGen exhaustive", cases=len(small)))

    def sim(num, salt, **kw):
        c = dict(base, **kw)
        mod, cfg = at.with_consts(ctx, "CondGen", c, BODY, name="MCCond")
        return core.simulate(ctx, mod, cfg, num=num, depth=c["N"] + c["Steps"] + 3, seed=ctx.seed * 7919 + salt)

    every = {"real", "int", "cat", "bool", "ord", "catn", "mixed", "sub"}
    cases = small + sim(ctx.n(900, 6000), 1, MinN=4, N=6, Kinds=every) + \
        sim(ctx.n(900, 6000), 2, MinN=7, N=8, Kinds={"real", "cat", "bool", "catn"}) + \
        sim(ctx.n(300, 3000), 6, MinN=8, N=8, Roots=2, Depth=2, Kinds={"bool"}) + \
        sim(ctx.n(200, 3000), 7, MinN=8, N=8, Roots=1, Depth=4, Kinds={"bool"}) + \
        sim(ctx.n(60, 600), 9, MinN=8, N=8, Roots=1, Depth=2, Kinds={"int", "real"}) + \
        sim(ctx.n(60, 600), 10, MinN=8, N=8, Roots=2, Depth=2, Kinds={"int"}) + \
        sim(ctx.n(200, 3000), 8, MinN=8, N=8, Roots=3, Depth=2, Kinds={"bool", "cat"})
    jobs = [dict(c, mode="space", shuffle=rng.random() < 0.5, style=rng.random() < 0.3,
                 explicit=c["op"] != "json" and rng.random() < 0.4) for c in cases]
    for salt, kinds, N in ((11, {"real", "bool"}, 4), (3, every, 6), (4, {"real", "cat", "int", "bool"}, 7), (5, {"real", "cat"}, 7)):
        for c in sim(ctx.n(40, 250), salt, Mode="bo", MinN=N - 2, N=N, Roots=3, Kinds=kinds, Ops={"none"}, Ns={0, 1, 2, 4}, Steps=ctx.n(5, 8), NVals=9):
            if rng.random() < 0.8:
                c["S"].append(dict(k="real", p=0, v=0))
            jobs.append(dict(c, mode="bo", shuffle=rng.random() < 0.5, style=False, explicit=rng.random() < 0.3, stub=rng.random() < 0.8, mn=rng.random() < 0.5,
                             flat=rng.random() < 0.15, npt=rng.choice([2, 2, 3]), doe=rng.choice([1, 5]), seed=rng.choice([0, 1, 42]),
                             way=rng.choice(["ask", "ask", "run", "load"])))
    for k, j in enumerate(jobs):
        j["tid"] = k + 1
    ctx.cases += len(jobs)
    res = core.drive(ctx, "cond", jobs, job_timeout=200)
    core.judge(ctx, "CondTrace", res, BODY, clauses=["P15"])
    ctx.samples += [{k: v for k, v in r.items() if k != "scenario"} for r in (res[len(small)], res[-1])]
    wait()
