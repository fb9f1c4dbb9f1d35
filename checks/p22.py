from lib import at, atprops, core


def run(ctx):
    M = 1000000

    def laws():
        body = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + \
            "".join(f"INVARIANT {x}\n" for x in ("Starts", "Reaches", "Constant", "Positive")) + "PROPERTY Monotone\n"
        c = dict(T0s={M, 2 * M, 5500000, 22 * M}, TFs={100000, 250000, M}, MaxIts=set(range(1, 40)), Halvings=set(range(1, 9)))
        mod, cfg = at.with_consts(ctx, "CriteriaMC", c, body, name="MCCrit")
        core.model_check(ctx, mod, cfg, name="Criteria schedules")

    wait = core.background(laws)
    scs = atprops.p22(ctx)
    res, _ = at.replay(ctx, scs, ["P22"])
    ctx.judged_steps += sum(len(r["ev"]) for r in res)
    core.judge(ctx, "CriteriaTrace", res, at.TRACE_CFG, clauses=["P22"])
    wait()
