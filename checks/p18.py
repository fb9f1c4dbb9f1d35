from lib import at, core


def run(ctx):
    inv = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    laws = inv + "INVARIANT BoxLaws\nINVARIANT PenLaws\n"
    q = ctx.quick()
    base = dict(Los={-3, 0, 2}, Widths={1, 2, 3, 5}, Xs=set(range(-25, 26)), D=1, Rows=1,
                Hs={-6, -3, -2, -1, 0, 2, 3, 5, 6}, Gs={-3, -1, 0, 1, 2, 3, 5}, Ts={1, 2, 5})

    def exh(**kw):
        mod, cfg = at.with_consts(ctx, "BoxPenaltyGen", dict(base, **kw), laws, name="MCBP")
        out = core.generate(ctx, mod, cfg, workers=4)
        ctx.models.append(dict(model="BoxPenaltyGen exhaustive %s" % kw.get("Mode"), cases=len(out)))
        return out

    def sim(num, depth, salt, **kw):
        mod, cfg = at.with_consts(ctx, "BoxPenaltyGen", dict(base, **kw), inv, name="MCBP")
        return core.simulate(ctx, mod, cfg, num=num, depth=depth, seed=ctx.seed * 7919 + salt)

    cases = exh(Mode="box", D=1)
    cases += exh(Mode="box", D=2, Xs={-7, -3, 0, 1, 4, 9}, Widths={1, 3}, Los={-3, 2})
    cases += exh(Mode="pen", Rows=1, Ts={1, 3}, Hs={-3, -2, 0, 2, 3}, Gs={-1, 0, 2}) if not q else \
        exh(Mode="pen", Rows=1, Ts={2}, Hs={-3, 2}, Gs={-1, 0, 3})
    n = len(cases)
    for D, num in [(2, 300), (3, 400), (4, 300), (6, 200)]:
        cases += sim(num * ctx.n(1, 6), D + 3, D, Mode="box", D=D, Xs={-900, -60, -13, -4, -2, 0, 1, 2, 3, 7, 20, 333})
    for R, num in [(2, 500), (3, 500), (5, 200)]:
        cases += sim(num * ctx.n(1, 6), R + 5, 10 + R, Mode="pen", Rows=R)
    units = ["1", "1/8", "1/10", "1000"]
    seen, jobs = set(), []
    for c in cases:
        if repr(c) not in seen:
            seen.add(repr(c))
            jobs.append(dict(c, tid=len(jobs) + 1, unit=units[len(jobs) % 4]))
    ctx.cases += len(jobs)
    ctx.notes.append("%d cases enumerated exhaustively, %d in all" % (n, len(jobs)))
    res = core.drive(ctx, "boxpen", jobs)
    core.judge(ctx, "BoxPenaltyTrace", res, inv, clauses=["P18"])
    ctx.samples += [{k: v for k, v in r.items() if k not in ("scenario",)} for r in (res[0], res[-1])]
