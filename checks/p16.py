import random

from lib import at, atprops, core

NOISES = {"slice", "query", "space", "filter", "arith", "sample", "other", "seeded"}


def run(ctx):
    body = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"

    def laws():
        c = dict(Len1=4, Len2=3, Noises={"slice", "sample", "seeded"}, MaxNoise=2, Emit=False)
        mod, cfg = at.with_consts(ctx, "Interleave", c, body + "VIEW View\nPROPERTY ResetOnlyBySeed\nPROPERTY PureKeeps\nPROPERTY Local\n",
                                  name="MCInter")
        core.model_check(ctx, mod, cfg, name="Interleave")

    wait = core.background(laws)
    rng = random.Random(ctx.seed * 7 + 16)
    # programs
    s = atprops.Set(ctx, "P16")
    cls = atprops.CLS + ["MultiAcquisitionBO"]
    kinds = dict(Kinds={"ask", "tell", "tellf", "rec", "stop", "load"}, Ns={0, 1, 2}, Ks={2}, fail=0.1,
                 Modes={"same", "part"}, FModes={"new"})
    N = ctx.n(60, 400)
    s.add(N, dict(space=at.ALL, cls=lambda r, k: r.choice(cls), fmt=["list", "dict"], acq=atprops.acq, aqfe=15,
                  seed=lambda r, k: r.choice([0, 0, 1, 42, r.randrange(10**6)]),
                  seeded=lambda r, k: r.random() < 0.85), 1, Depth=6, **kinds)
    # pairs of the same class with the same space, sharing their arguments
    s.add(N, dict(space=["real2", "mix", "real2", "prec", "fin6"], cls=[c for c in cls if c != "MOBO"], aqfe=15,
                  acq_par=lambda r, k: {"t": 1.5} if k["cls"] != "BO" else None,
                  acq=lambda r, k: None, seed=lambda r, k: r.choice([0, 3, 42]), budget=40), 2, Depth=6, **kinds)
    s.add(ctx.n(10, 60), dict(space=["real2", "mix"], cls=["BO", "ParallelBO"], model=["rf", "rf", "gp"], doe=6, seed=[0, 7]), 3, Depth=4, **kinds)
    one = [x for x in s.scs if x["tid"] <= N]
    two = [x for x in s.scs if N < x["tid"] <= 2 * N]
    three = [x for x in s.scs if x["tid"] > 2 * N]
    for x in three:
        if x["model"] == "gp":
            x["space"] = "real2"
    jobs = []

    def scheds(num, n1, n2, noise, salt):
        c = dict(Len1=n1, Len2=n2, Noises=NOISES, MaxNoise=noise, Emit=True)
        mod, cfg = at.with_consts(ctx, "Interleave", c, body, name="MCInter")
        return core.simulate(ctx, mod, cfg, num=num, depth=n1 + n2 + noise + 2, seed=ctx.seed * 7919 + salt)

    def pair(As, Bs, salt, share=False, child=0):
        n1, n2 = len(As[0]["ops"]) + 1, len(Bs[0]["ops"]) + 1
        ss = scheds(4 * len(As), n1, n2, 6, salt)
        ss = [x for x in ss if sum(e["w"] == 1 for e in x) == n1 and sum(e["w"] == 2 for e in x) == n2]
        for k, (a, b) in enumerate(zip(As, Bs)):
            jobs.append(dict(tid=len(jobs) + 1, A=a, B=b, sched=ss[k % len(ss)], share=share, child=k < child))

    h = len(one) // 2
    pair(one[:h], one[h:2 * h], 1, child=ctx.n(12, 40))
    # same configuration for both partners where the arguments are shared
    h = len(two) // 2
    for a, b in zip(two[:h], two[h:2 * h]):
        for k in ("space", "cls", "acq_par", "aqfe", "npt", "doe", "optimizer", "min", "budget"):
            if k in a:
                b[k] = a[k]
            else:
                b.pop(k, None)
        b["key"] = a["key"]
    pair(two[:h], two[h:2 * h], 2, share=True)
    h = len(three) // 2
    pair(three[:h], three[h:2 * h], 3, child=2)
    res = core.drive(ctx, "interf", jobs, job_timeout=240)
    core.judge(ctx, "InterleaveTrace", res, body, clauses=["P16"])
    ctx.samples += [dict(A=r["scenario"]["A"]["key"], B=r["scenario"]["B"]["key"], sched=r["scenario"]["sched"][:8]) for r in res[:2]]
    wait()
