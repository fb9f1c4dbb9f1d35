import itertools
import random

from lib import at, core


def run(ctx):
    inv = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    base = dict(Mode="lat", Ms={-2, 0, 1}, Ss={1, 2}, Pls={-1, 0, 2}, Pars={1, 2}, D=2, NPts=2, YMax=2)

    def laws():
        mod, cfg = at.with_consts(ctx, "AcquisitionGen", dict(base, Ms={-2, -1, 0, 1, 2}, Pls={-1, 0, 1}),
                                  inv + "INVARIANT LawsHold\nINVARIANT SignHold\n", name="MCAcq")
        core.model_check(ctx, mod, cfg, name="Acquisition laws")

    wait = core.background(laws)
    # expected hypervolume improvement: exhaustive small scope, then larger samples
    mod, cfg = at.with_consts(ctx, "AcquisitionGen", dict(base, Mode="ehvi", D=2, NPts=ctx.n(1, 2), YMax=2),
                              inv + "INVARIANT HviHold\n", name="MCEhvi")
    cases = core.generate(ctx, mod, cfg, workers=4)
    ctx.models.append(dict(model="EHVI exhaustive", cases=len(cases)))
    cases = cases[::ctx.n(1, 3)]

    def sim(num, depth, salt, **kw):
        mod, cfg = at.with_consts(ctx, "AcquisitionGen", dict(base, **kw), inv, name="MCAcq")
        return core.simulate(ctx, mod, cfg, num=num * ctx.n(1, 5), depth=depth, seed=ctx.seed * 7919 + salt)

    cases += sim(120, 8, 1, Mode="ehvi", D=2, NPts=4, YMax=5)
    cases += sim(80, 8, 2, Mode="ehvi", D=3, NPts=3, YMax=3)
    cases += sim(40, 10, 3, Mode="ehvi", D=3, NPts=5, YMax=4)
    G = dict(Mode="grad", Ms={-2, 0, 1, 3}, Ss={1, 2, 4}, Pls={-1, 0, 2}, Pars={1, 2, 3, 5})
    cases += sim(200, 7, 4, D=1, **G)
    cases += sim(300, 8, 5, D=2, **G)
    cases += sim(100, 9, 6, D=3, **G)
    rng = random.Random(ctx.seed)
    ctx.cases += len(cases)
    jobs = [dict(c, unit=rng.choice(["1", "1", "100", "1/10"])) if c["k"] == "ehvi" else c for c in cases]
    # lattices of queries; every law is judged on every pair of a lattice
    for f in ["UCB", "EI", "PI", "EPI", "MGFI", "MGFS"]:
        for rep in range(ctx.n(10, 60)):
            pool = [-40, -9, -5, -3, -2, -1, 0, 1, 2, 3, 4, 6, 11, 40] if f[:3] != "MGF" else [-3, -2, -1, 0, 1, 2, 3, 4]
            if rep < 2:
                Ms, Ss, Pls = [-3, -2, -1, 0, 1, 2], [1, 2], [-1, 0, 1]
            else:
                Ms = rng.sample(pool, 4)
                Ss = rng.sample([0, 1, 2, 3, 5] if f in ("EI", "UCB") else [1, 2, 3], 2)
                Pls = rng.sample(pool, 2)
            Ms, Pls = sorted(set(Ms) | {-m for m in Ms}), sorted(set(Pls) | {-p for p in Pls})
            q = [dict(m=m, s=s, pl=p, mn=mn) for m, s, p, mn in itertools.product(Ms, Ss, Pls, [True, False])]
            jobs.append(dict(k="lat", crit=dict(f=f, par=([1, 2, 3, 4, 8] if f != "MGFS" else [1, 2, 3])[rep % (5 if f != "MGFS" else 3)]), q=q,
                             unit="1" if f == "MGFI" else rng.choice(["1/1000", "1/10000", "1/100000"]) if f == "MGFS" else rng.choice(["1", "1/10", "1/4", "1000", "1/1000"]),
                             auto=rep % 3 == 1, sigma2=[0, 0, 1, 0, 10000, 0, 100][rep % 7], shape=rep % 2))
    for k, j in enumerate(jobs):
        j["tid"] = k + 1
    res = core.drive(ctx, "acq", jobs)
    core.judge(ctx, "AcquisitionTrace", res, inv, clauses=["P11"], heap="2g")
    ctx.samples += [{k: v for k, v in r.items() if k != "scenario"} for r in (res[0], res[len(cases) - 1])]
    wait()
