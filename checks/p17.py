import random

from lib import at, core

BODY = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    def gen(consts, body=BODY, sim=None, salt=0):
        mod, cfg = at.with_consts(ctx, "RestartGen", consts, body, name="MCRestart")
        if sim:
            return core.simulate(ctx, mod, cfg, num=sim, depth=consts["MaxN"] + 4, seed=ctx.seed * 7919 + salt)
        return core.generate(ctx, mod, cfg, workers=4)

    def laws():
        c = dict(MaxN=ctx.n(3, 4), Ws={1, 2}, Bs={5, 10}, Fs={0, 1, 2}, Ns={3, 6}, Feas={True, False}, Emit=False)
        mod, cfg = at.with_consts(ctx, "RestartGen", c, BODY + "INVARIANT Meets\nINVARIANT Patience\nINVARIANT Budget\n",
                                  name="MCRestart")
        core.model_check(ctx, mod, cfg, name="Restart")
        c = dict(Algs={"MIES"}, Reals={"a"}, Others=set(), Objs={"o"}, Budgets={1}, Opts={"o"}, Emit=False,
                 Vals={1, 2, 3, 4}, MaxLen=6)
        mod, cfg = at.with_consts(ctx, "InnerGen", c, BODY + "INVARIANT Keeps\nINVARIANT Bound\n", name="MCInner")
        core.model_check(ctx, mod, cfg, name="Inner")

    wait = core.background(laws)
    rng = random.Random(ctx.seed * 13 + 17)
    algs = ["MIES", "OnePlusOne_Cholesky_CMA", "BFGS"]
    jobs = []
    # scripted: every script of up to three restarts (small scope), longer ones sampled
    small = gen(dict(MaxN=ctx.n(2, 3), Ws={1, 2}, Bs={5, 10}, Fs={0, 1, 2}, Ns={3, 6}, Feas={True, False}, Emit=True))
    big = gen(dict(MaxN=8, Ws={1, 2, 3, 4}, Bs={1, 20, 60, 1000}, Fs={-3, -1, 0, 1, 2, 5, 9}, Ns={1, 4, 10, 25}, Feas={True, False}, Emit=True),
              sim=ctx.n(2500, 20000), salt=3)
    # patience: long scripts within the budget
    big += gen(dict(MaxN=9, Ws={2, 3, 4}, Bs={1000}, Fs={0, 1, 2, 3}, Ns={1}, Feas={True}, Emit=True), sim=ctx.n(1500, 12000), salt=4)
    ctx.models.append(dict(model="RestartGen scripts", exhaustive=len(small), sampled=len(big)))
    for c in small + big:
        jobs.append(dict(c, mode="script", alg=algs[len(jobs) % 3], cons=rng.choice(["g", "h", "gh"]),
                         cons0=rng.choice(["g", "h", "gh", "none", "none"])))
    # real searches
    for k in range(ctx.n(180, 1500)):
        alg = algs[k % 3]
        sp = rng.choice(at.ALL if alg == "MIES" else at.REAL)
        if alg == "BFGS" and sp in ("prec", "precoff", "scalesp"):
            sp = "real2"
        jobs.append(dict(mode="real", alg=alg, space=sp, obj=rng.choice(["sphere", "step", "wild", "const", "linear", "huge"]),
                         salt=rng.randrange(1000), seed=rng.randrange(1000), cons=rng.choice(["none", "none", "g", "h", "never"]),
                         n=rng.choice([1, 3, 6]), w=rng.choice([1, 2, 3]), b=rng.choice([5, 40, 120, 400])))
    # the inner optimizers
    c = dict(Algs={"MIES", "OnePlusOne_CMA", "OnePlusOne_Cholesky_CMA"}, Reals=set(at.REAL), Others=set(at.DISC + at.MIXED),
             Objs={"sphere", "step", "wild", "const", "linear", "huge"}, Budgets={2, 15, 60}, Opts={"none"}, Emit=True,
             Vals={1}, MaxLen=1)
    mod, cfg = at.with_consts(ctx, "InnerGen", c, BODY, name="MCInner")
    cases = core.generate(ctx, mod, cfg, workers=4)
    ctx.models.append(dict(model="InnerGen", cases=len(cases)))
    rng.shuffle(cases)
    for c in cases[:ctx.n(500, len(cases))] * ctx.n(1, 3):
        cma = c["alg"] != "MIES"
        opt = rng.choice(["", "", "x0", "sigma", "cov", "restart", "tol", "x0 sigma restart", "cov tol"]) if cma else \
            rng.choice(["", "", "pop", "elite", "pop elite"])
        jobs.append(dict(c, mode="inner", opt=opt, salt=rng.randrange(1000), seed=rng.choice([0, 1, 42, rng.randrange(10**6)]),
                         budget=rng.choice([250, 600]) if "restart" in opt else c["budget"]))
    for k, j in enumerate(jobs):
        j["tid"] = k + 1
    ctx.cases += len(jobs)
    res = core.drive(ctx, "inner", jobs)
    skipped = sum(r["k"] == "skip" for r in res)
    ctx.notes.append(f"{skipped} searches not observable (inner optimizers not reached through their classes)")
    core.judge(ctx, "RestartTrace", res, BODY, clauses=["P17"])
    ctx.samples += [{k: v for k, v in r.items() if k != "scenario"} for r in (res[0], res[len(small)])]
    wait()
