from lib import at, core


def run(ctx):
    inv = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + \
        "".join("INVARIANT %s\n" % x for x in ("FrontLaws", "LayerLaws", "HVLaws"))
    R2 = [(0, 0), (-1, 0), (1, 0), (0, 2)]
    R3 = [(0, 0, 0), (-1, 0, 1)]
    q = ctx.quick()

    def gen(M, K, MaxN, MinN, Refs, sim=0):
        c = dict(M=M, K=K, MaxN=MaxN, MinN=MinN, Refs=set(Refs))
        body = inv if not sim else "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        mod, cfg = at.with_consts(ctx, "ParetoGen", c, body, name="MCPareto")
        if sim:
            return core.simulate(ctx, mod, cfg, num=sim, depth=MaxN + 3, seed=ctx.seed * 7919 + M * 100 + K)
        out = core.generate(ctx, mod, cfg, workers=4)
        ctx.models.append(dict(model="ParetoGen m=%d values 0..%d up to %d points" % (M, K, MaxN), cases=len(out)))
        return out

    cases = gen(2, 2, 3 if q else 4, 1, R2) + gen(3, 1, 3, 1, R3) + gen(3, 2, 2, 1, R3)
    n_exh = len(cases)
    for M, K, n, num in [(2, 6, 9, 150), (2, 5, 5, 150), (3, 3, 6, 200), (3, 3, 4, 150), (3, 4, 9, 60), (4, 2, 5, 60)]:
        refs = R2 if M == 2 else R3 if M == 3 else [(0, 0, 0, 0), (0, -1, 1, 0)]
        cases += [c for c in gen(M, K, n, n, refs, sim=num if q else num * 6)]
    seen, jobs = set(), []
    units = ["1", "1/4", "1024", "8"]
    offs = ["0", "-3", "15/2", "-4096"]
    for c in cases:
        k = repr(c)
        if k in seen:
            continue
        seen.add(k)
        i = len(jobs) + 1
        n = len(c["ys"])
        # decompositions built at once and incrementally
        splits = [[], [1]] if i % 2 else [[max(1, n // 2)], list(range(1, n))]
        jobs.append(dict(c, tid=i, unit=[units[(i + j) % 4] for j in range(c["m"])],
                         off=[offs[(i // 3 + 2 * j) % 4] for j in range(c["m"])], dt=64 if i % 3 else 32, splits=splits))
    ctx.cases += len(jobs)
    ctx.notes.append("%d cases enumerated exhaustively, %d in all" % (n_exh, len(jobs)))
    res = core.drive(ctx, "pareto", jobs)
    core.judge(ctx, "ParetoTrace", res, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", clauses=["P10"])
    ctx.samples += [{k: r[k] for k in ("ys", "ref", "hv", "fronts")} for r in res[-2:]]
