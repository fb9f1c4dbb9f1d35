from lib import at, atprops, core


def forest(ctx):
    """the random-forest surrogate and categorical values"""
    body = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    c = dict(NAs={2}, NBs={1, 2}, Ys={0, 1}, NBatch=2, MaxLen=2)
    mod, cfg = at.with_consts(ctx, "ForestGen", c, body + "INVARIANT Ideal\n", name="MCForest")
    core.model_check(ctx, mod, cfg, name="Forest")
    c = dict(NAs={2, 3, 4}, NBs={1, 2, 3}, Ys={0, 1, 2, 5, 9}, NBatch=5, MaxLen=4)
    mod, cfg = at.with_consts(ctx, "ForestGen", c, body, name="MCForest")
    cases = core.simulate(ctx, mod, cfg, num=ctx.n(60, 600), depth=45, seed=ctx.seed * 7919 + 77)
    jobs = [dict(x, tid=500001 + k) for k, x in enumerate(cases)]
    ctx.cases += len(jobs)
    res = core.drive(ctx, "forest", jobs)
    core.judge(ctx, "ForestTrace", res, body, clauses=["P23"])


def run(ctx):
    atprops.run(ctx, "P23", extra=forest)
