import random

from lib import at, core

NPOOL = 28


def run(ctx):
    spec = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    base = dict(Mode="sample", Pool=set(range(1, NPOOL + 1)), NVar=1, Ns={1, 7}, Methods={"uniform", "LHS", "sobol"},
                ConsSet={"none"}, Los={-7, 0, 3}, Widths={4, 13, 26}, Prs={1, 10}, MinV=1)
    rng = random.Random(ctx.seed)
    jobs = []

    def add(cases, k, **kw):
        for c in cases:
            jobs.append(dict(c, k=k, tid=len(jobs) + 1, seed=rng.randrange(1, 10**8), tol=rng.choice([0.01, 0.05, 0.002]), **kw))

    def gen(**kw):
        mod, cfg = at.with_consts(ctx, "SamplingGen", dict(base, **kw), spec + "INVARIANT RoundLaws\nINVARIANT IntLaws\n",
                                  name="MCSamp")
        out = core.generate(ctx, mod, cfg, workers=4)
        ctx.models.append(dict(model="SamplingGen %s" % kw.get("Mode", "sample"), cases=len(out)))
        return out

    def sim(num, nvar, salt, **kw):
        mod, cfg = at.with_consts(ctx, "SamplingGen", dict(base, NVar=nvar, **kw), spec, name="MCSamp")
        return core.simulate(ctx, mod, cfg, num=num * ctx.n(1, 6), depth=nvar + 4, seed=ctx.seed * 7919 + salt)

    add(gen(Ns={1, 2, 9, 25}), "sample")                     # every declaration alone, every method
    add(gen(Mode="round"), "round", dig=2)
    add(gen(Mode="round", Los={-90, 0, 37}, Widths={40, 130}, Prs={10, 100}), "round", dig=3)
    add(sim(150, 4, 1, Ns={1, 2, 5, 11, 40}), "sample")
    add(sim(60, 7, 2, Ns={3, 8, 60}, MinV=4), "sample")
    add(sim(20, 3, 3, Ns={400}, Pool=set(range(13, 24))), "sample")    # every level is drawn
    add(gen(Ns={400}, Pool=set(range(13, 24)), Methods={"uniform", "LHS"}), "sample")
    add(gen(Ns={400}, Pool=set(range(1, 13)) | {24, 25, 26, 27, 28}), "sample")     # the whole range is reached
    add(gen(Ns={3, 7, 15, 31}, Methods={"sobol"}), "sample")
    add(sim(40, 5, 6, Ns={3, 7, 15, 31}, Methods={"sobol"}, MinV=2), "sample")
    add(sim(90, 3, 4, Ns={1, 4, 6, 7, 9, 12, 25}, ConsSet={"g", "gl", "ga", "gcat", "h", "hg"}), "sample")
    add(gen(Ns={5, 8}, ConsSet={"gl"}, Methods={"uniform"}), "sample")
    add(sim(60, 3, 5), "member")
    add(sim(25, 6, 7, MinV=4), "member")
    ctx.cases += len(jobs)
    res = core.drive(ctx, "sampling", jobs, job_timeout=200)
    core.judge(ctx, "SamplingTrace", res, spec, clauses=["P13"])
    ctx.samples += [{k: v for k, v in r.items() if k != "scenario"} for r in (res[0], res[-1])]
