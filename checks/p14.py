from lib import at, core

OPS = {"new", "rows", "cols", "rc", "add", "mul", "copy", "uniq", "fromd", "set", "rset", "bump"}


def run(ctx):
    spec = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"

    def laws():
        c = dict(Regs={1, 2}, Cols=["u", "v"], MaxRows=2, Depth=3, NObj=1, Ops=OPS - {"fromd", "rc"})
        mod, cfg = at.with_consts(ctx, "ContainerGen", c,
                                  spec + "VIEW View\nINVARIANT WellFormed\nPROPERTY Local\nPROPERTY XStable\n", name="MCCont")
        core.model_check(ctx, mod, cfg, name="Container algebra")

    wait = core.background(laws)
    jobs = []

    def sim(num, depth, salt, regs, cols, nobj, ops=OPS, **kw):
        c = dict(Regs=set(range(1, regs + 1)), Cols=cols, MaxRows=6, Depth=depth, Ops=ops, NObj=nobj)
        mod, cfg = at.with_consts(ctx, "ContainerGen", c, spec, name="MCCont")
        for ops_ in core.simulate(ctx, mod, cfg, num=num * ctx.n(1, 8), depth=depth + 3, seed=ctx.seed * 7919 + salt):
            jobs.append(dict(tid=len(jobs) + 1, nreg=regs, cols=cols, nobj=nobj, ops=ops_, **kw))

    sim(60, 9, 1, 3, ["u", "v", "w"], 1)
    sim(60, 9, 2, 3, ["u", "v", "w"], 2)
    sim(30, 14, 3, 2, ["b", "a"], 1)
    sim(20, 12, 4, 2, ["z"], 3, OPS - {"cols", "rc"})
    sim(30, 10, 5, 3, ["u", "v", "w", "q"], 1, {"new", "rows", "set", "rset", "bump", "copy", "add"})
    sim(30, 9, 6, 3, ["u", "v", "w"], 1, OPS - {"uniq"}, tuples=True, fnames=["cost"])
    sim(20, 9, 7, 2, ["b", "a"], 2, OPS - {"uniq"}, tuples=True)
    sim(30, 9, 8, 3, ["u", "v", "w"], 2, fnames=["time", "cost"])
    sim(20, 9, 9, 3, ["z"], 3, OPS - {"cols", "rc"}, fnames=["q", "a", "m"])
    sim(30, 10, 10, 3, ["u", "v"], 1, {"new", "rows", "add", "mul", "uniq", "cols"})
    ctx.cases += len(jobs)
    res = core.drive(ctx, "container", jobs)
    core.judge(ctx, "ContainerTrace", res, spec, clauses=["P14"])
    ctx.samples += [dict(ops=r["scenario"]["ops"][:5], last=r["ev"][-1]["regs"][0]) for r in res[:2]]
    wait()
