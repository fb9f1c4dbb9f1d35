from lib import at, core


def run(ctx):
    inv = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    base = dict(Mode="pen", D=1, Zs={-4, -1, 0, 2}, Cs={0, 2}, Ns={3}, Ys={0, 1}, Rounds=1)

    def exh(**kw):
        mod, cfg = at.with_consts(ctx, "ReducedGen", dict(base, **kw), inv + "INVARIANT PenLaws\nINVARIANT LinLaws\n", name="MCRed")
        out = core.generate(ctx, mod, cfg, workers=4)
        ctx.models.append(dict(model="ReducedGen exhaustive %s D=%s" % (kw["Mode"], kw["D"]), cases=len(out)))
        return out

    def sim(num, depth, salt, **kw):
        mod, cfg = at.with_consts(ctx, "ReducedGen", dict(base, **kw), inv, name="MCRed")
        return core.simulate(ctx, mod, cfg, num=num, depth=depth, seed=ctx.seed * 7919 + salt)

    T = ctx.n(1, 5)
    pen = exh(Mode="pen", D=1, Zs=set(range(-6, 7)), Cs={-1, 0, 2})
    pen += exh(Mode="pen", D=2, Zs={-4, 0, 3})
    lin = exh(Mode="lin", D=1, Ns={3}, Zs={-1, 0, 2}, Ys={0, 1, 2})
    n = len(pen) + len(lin)
    pen += sim(400 * T, 9, 1, Mode="pen", D=3, Zs={-6, -3, -1, 0, 1, 2, 5}, Cs={-2, 0, 1, 3})
    pen += sim(200 * T, 11, 2, Mode="pen", D=4, Zs={-6, -1, 0, 2, 5}, Cs={-2, 0, 1})
    lin += sim(200 * T, 14, 3, Mode="lin", D=2, Ns={3, 4, 6}, Zs={-4, -1, 0, 3}, Ys={-3, 0, 1, 2, 5})
    lin += sim(200 * T, 14, 4, Mode="lin", D=3, Ns={4, 6, 9}, Zs={-4, 0, 1, 3}, Ys={-3, 0, 1, 2, 5, 7})
    hist = sim(ctx.n(120, 500), 14, 5, Mode="hist", Ns={3, 4, 6}, Ys={-4, 0, 1, 3, 9}, Rounds=3)
    hist += sim(ctx.n(24, 80), 20, 6, Mode="hist", Ns={5}, Ys={-4, 0, 3, 9, 40}, Rounds=7)
    seen, jobs = set(), []
    for c in pen + lin + hist:
        if repr(c) not in seen and not (c.get("ys") and len({tuple(x) for x in c["X"]}) < 2):
            seen.add(repr(c))
            jobs.append(dict(c, tid=len(jobs) + 1))
    ctx.cases += len(jobs)
    ctx.notes.append("%d cases enumerated exhaustively, %d in all" % (n, len(jobs)))
    res = core.drive(ctx, "reduced", jobs)
    core.judge(ctx, "ReducedTrace", res, inv, clauses=["P26"])
    ctx.samples += [{k: v for k, v in r.items() if k not in ("scenario",)} for r in (res[0], res[-1])]
