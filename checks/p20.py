import random

from lib import at, core

BODY = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    def laws():
        c = dict(N0s={1, 3}, Npts={1, 2}, Maxs={1, 2, 5}, Tgts={-900000, 1}, Ys={0, 1, at.NAN}, Emit=False)
        mod, cfg = at.with_consts(ctx, "FminGen", c, BODY + "INVARIANT Overshoot\nINVARIANT Meets\n", name="MCFmin")
        core.model_check(ctx, mod, cfg, name="Fmin")

    wait = core.background(laws)
    rng = random.Random(ctx.seed * 3 + 20)

    def sim(num, salt, **kw):
        c = dict(N0s={1, 2, 3, 5, 8}, Npts={1, 1, 2, 3}, Maxs={1, 2, 4, 7, 12, 16}, Tgts={-900000, -20, 0, 2},
                 Ys={-30, -9, -4, 0, 1, 2, 3, 5, 8, 13, 40, 41, 77}, Emit=True)
        c.update(kw)
        mod, cfg = at.with_consts(ctx, "FminGen", c, BODY, name="MCFmin")
        return core.simulate(ctx, mod, cfg, num=num, depth=60, seed=ctx.seed * 7919 + salt)

    base = sim(ctx.n(700, 5000), 1)
    fail = sim(ctx.n(250, 2000), 2, Ys={0, 1, 3, 7, 9, 20, at.NAN, at.PINF})
    gp = sim(ctx.n(60, 400), 3, N0s={4, 6}, Maxs={4, 9, 12})
    ties = sim(ctx.n(120, 1000), 4, Ys={0, 3}, Tgts={-900000, 0})
    jobs = []
    for cs, stub in ((base, True), (fail, True), (ties, True), (gp, False)):
        for c in cs:
            jobs.append(dict(c, stub=stub, box=rng.randrange(5) if stub else rng.choice([0, 1, 4]), npt1=rng.random() < 0.5,
                             twice=rng.random() < 0.4, seed=rng.choice([0, 1, 42, rng.randrange(10**6)])))
    for k, j in enumerate(jobs):
        j["tid"] = k + 1
    ctx.cases += len(jobs)
    res = core.drive(ctx, "fmin", jobs, job_timeout=120)
    core.judge(ctx, "FminTrace", res, BODY, clauses=["P20"])
    ctx.samples += [{k: v for k, v in r.items() if k != "scenario"} for r in (res[0], res[-1])]
    wait()
