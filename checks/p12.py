from lib import at, core

NAMES = ["x", "x", "x0", "y", "x", "i", "i0", "c", "c", "o", "b", "s", "y", "x1", "i", "o", "b", "i", "x", "c"]
OPS = {"new", "add", "sub", "concat", "mul", "imul", "pick", "filter", "dict", "json", "iadd", "isub", "update",
       "remove", "pop", "set", "rename", "puts", "fam", "expand", "range", "twin", "whole", "concat3", "clone"}


def run(ctx):
    spec = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"

    def laws():
        c = dict(Regs={1, 2}, DeclName=["x", "x0", "y"], MaxLen=3, Depth=ctx.n(3, 4),
                 Ops=OPS - {"concat", "dict", "json", "pop", "set", "filter", "imul", "puts", "fam", "expand", "twin", "whole", "concat3", "clone"})
        mod, cfg = at.with_consts(ctx, "SpaceGen", c, spec + "VIEW View\nINVARIANT AlwaysUnique\nINVARIANT AlgebraLaws\n",
                                  name="MCSpace")
        core.model_check(ctx, mod, cfg, name="Space algebra")

    wait = core.background(laws)
    jobs = []

    def sim(num, depth, salt, regs, ops=OPS, maxlen=7, prefix=()):
        c = dict(Regs=set(range(1, regs + 1)), DeclName=NAMES, MaxLen=maxlen, Depth=depth, Ops=ops)
        mod, cfg = at.with_consts(ctx, "SpaceGen", c, spec, name="MCSpace")
        for k, ops_ in enumerate(core.simulate(ctx, mod, cfg, num=num * ctx.n(1, 8), depth=depth + 3,
                                               seed=ctx.seed * 7919 + salt)):
            jobs.append(dict(tid=len(jobs) + 1, regs=list(range(1, regs + 1)), ops=ops_))

    sim(60, 8, 1, 2)
    sim(40, 14, 2, 3)
    sim(40, 9, 3, 2, ops={"new", "range", "pick", "rename", "set", "pop", "remove", "update", "iadd", "filter"})
    sim(40, 9, 4, 3, ops={"new", "add", "sub", "mul", "isub", "imul", "concat", "concat3", "dict", "json"})
    sim(40, 8, 5, 2, ops={"new", "fam", "expand", "puts", "dict", "pick", "sub", "rename"})
    sim(60, 5, 6, 2, ops={"new", "twin", "expand", "dict"})
    sim(80, 8, 7, 2, ops={"new", "add", "pop", "remove"}, maxlen=8)
    sim(40, 9, 8, 2, ops={"new", "add", "iadd", "whole", "rename"}, maxlen=8)
    sim(40, 8, 9, 2, ops={"new", "clone", "rename", "set", "remove", "iadd"})
    ctx.cases += len(jobs)
    res = core.drive(ctx, "space", jobs)
    core.judge(ctx, "SpaceTrace", res, spec, clauses=["P12"])
    ctx.samples += [dict(ops=r["scenario"]["ops"][:5], names=r["ev"][-1]["regs"][0]["names"]) for r in res[:2]]
    wait()
