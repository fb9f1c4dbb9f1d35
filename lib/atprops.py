"""Scenario sets of the ask/tell family, one per property: which operations the generated
behaviours use and which configurations they are replayed in."""
import random

from . import at

SEQ_ACQ = [None, "EI", "UCB", "PI", "EpsilonPI", "MGFI"]
PAR_ACQ = [None, "MGFI", "UCB"]


class Set:
    def __init__(self, ctx, prop):
        self.ctx, self.prop = ctx, prop
        self.rng = random.Random(ctx.seed * 31 + int(prop[1:]))
        self.scs = []

    def add(self, num, cfg, salt, **gen):
        """num behaviours, each in a configuration drawn from cfg (values: lists of
        alternatives cycled through, or callables)"""
        bs = at.behaviours(self.ctx, num, salt=int(self.prop[1:]) * 100 + salt, **gen)
        cyc = {k: list(v) for k, v in cfg.items() if isinstance(v, (list, tuple))}
        for v in cyc.values():
            self.rng.shuffle(v)
        for j, ops in enumerate(bs):
            kw = {}
            for k, v in cfg.items():
                kw[k] = cyc[k][j % len(cyc[k])] if k in cyc else v(self.rng, kw) if callable(v) else v
            self.scs.append(at.scenario(self.rng, len(self.scs) + 1, ops, **kw))
        return self


def acq(rng, kw):
    c = kw.get("cls", "BO")
    if c == "MOBO":
        return None
    if c in ("BO",):
        return rng.choice(SEQ_ACQ)
    if c in ("ParallelBO", "NoisyBO"):
        return rng.choice(PAR_ACQ)
    return None


def acq_par(rng, kw):
    return None


def optim(rng, kw):
    """inner optimizer admissible for the space"""
    if kw["space"] in at.REAL:
        return rng.choice([None, "MIES", "OnePlusOne_Cholesky_CMA", "BFGS"]) if kw.get("model") == "gstub" else \
            rng.choice([None, "MIES", "OnePlusOne_Cholesky_CMA"])
    return None


CLS = ["BO", "ParallelBO", "AnnealingBO", "SelfAdaptiveBO", "NoisyBO", "MOBO"]
ASKTELL = dict(Kinds={"ask", "tell", "tellf"}, Modes={"same", "part"}, FModes={"new"})


def p01(ctx):
    s = Set(ctx, "P01")
    n = ctx.n
    s.add(n(57, 380), dict(space=at.ALL, cls=lambda r, k: r.choice(CLS), acq=acq, fmt=["list", "dict"]), 1,
          fail=0.15, Depth=7, **ASKTELL)
    # every real space with every inner optimizer; criteria pushing into the corners
    s.add(n(42, 250), dict(space=at.REAL, model=["gstub", "stub"], optimizer=optim, corner=[1.0, -1.0, None],
                           cls=lambda r, k: r.choice(["BO", "ParallelBO"]), acq=acq), 2,
          fail=0.1, Depth=6, Ns={0, 1, 2}, **ASKTELL)
    s.add(n(30, 200), dict(space=at.MIXED + at.DISC, corner=[1.0, -1.0, None], aqfe=60,
                           cls=lambda r, k: r.choice(CLS[:5]), acq=acq), 3,
          fail=0.1, Depth=6, Ns={0, 1, 4}, **ASKTELL)
    # real surrogates
    s.add(n(10, 60), dict(space=["mix", "mix2", "real2", "zero", "subs"], model="rf", doe=5, unit=1.0,
                          cls=lambda r, k: r.choice(["BO", "ParallelBO", "NoisyBO"])), 4,
          fail=0.0, Depth=5, Ns={0, 1, 2}, **ASKTELL)
    s.add(n(8, 50), dict(space=["real2", "prec", "asym"], model="gp", doe=6, unit=1.0, target=None,
                         cls=lambda r, k: r.choice(["BO", "ParallelBO"])), 5,
          fail=0.0, Depth=4, Ns={0, 1, 2}, **ASKTELL)
    # constrained designs are drawn by a different sampler
    s.add(n(30, 200), dict(space=CONSTRAINED, cons=cons_for, fmt=["list", "dict"], aqfe=60, csv=False,
                           cls=lambda r, k: r.choice(CLS)), 7, fail=0.0, Depth=4, Ns={0, 1, 4}, **ASKTELL)
    # many samples of the random design
    s.add(n(38, 100), dict(space=at.ALL, doe=[30, 17, 60]), 6, Kinds={"ask"}, Ns={0, 25, 40}, Depth=3)
    return s.scs


def long(s, num, salt, space=None, cls=CLS, depth=40, **cfg):
    """long histories: many batches, some of them large"""
    c = dict(space=space or ["real2", "mix", "real1", "mixr", "zero", "fin6", "subs"], cls=lambda r, k: r.choice(cls), fmt=["list", "dict"],
             budget=0, target=None, aqfe=8, aqr=1)
    c.update(cfg)
    s.add(num, c, salt, Kinds={"ask", "tell", "tellf", "rec"}, Ns={0, 1, 5}, Ks={1, 4, 12}, fail=0.25, Depth=depth, **ALLMODES)


def some_cons(rng, kw):
    c = cons_for(rng, kw)
    return "none" if c in ("hinf", "infeas") else c     # nothing is feasible: slow and uninteresting here


def anything(s, num, salt, cls=CLS, **cfg):
    """every operation and every option of the construction together"""
    c = dict(space=at.ALL, cls=lambda r, k: r.choice(cls), fmt=["list", "dict"], acq=acq,
             cons=lambda r, k: some_cons(r, k) if k["space"] in CONSTRAINED and r.random() < 0.35 else "none",
             warm=lambda r, k: warm(r, k) if r.random() < 0.3 else None, csv=lambda r, k: r.random() < 0.3,
             budget=lambda r, k: r.choice([0, 0, 7, 15]), unit=lambda r, k: r.choice([1.0, 1.0, 0.1, 1e6, 0.001]), aqfe=20)
    c.update(cfg)
    s.add(num, c, salt, Kinds={"ask", "tell", "tellf", "rec", "stop", "step", "save", "load", "savefail"}, Ns={0, 1, 2, 6}, Ks={1, 3, 6},
          Fixes={0, 0, 1, 2, 5}, fail=0.3, Depth=12, Raises={0, 0, 2}, **ALLMODES)


FLAT = {(3,), (3, 3, at.NAN), (3, 3, 3, 5)}


def flat(s, num, salt, cls=CLS[:5], **cfg):
    """histories whose values are all equal: the model update fails once there are enough of them"""
    c = dict(space=at.ALL, cls=lambda r, k: r.choice(cls), fmt=["list", "dict"], budget=lambda r, k: r.choice([0, 9]), unit=[1.0, 0.1, 1e6], aqfe=15,
             warm=lambda r, k: dict(form=r.choice(["sol", "list"]), ys=r.choice([[3, 3], [3] * 6, [3] * 8])) if r.random() < 0.3 else None,
             csv=lambda r, k: r.random() < 0.5)
    c.update(cfg)
    s.add(num, c, salt, Kinds={"ask", "tell", "tellf", "rec", "stop", "load", "step"}, Ns={0, 1}, Ks={1, 3, 7}, Pats=FLAT, Depth=8)


MULTI = [x for x in at.ALL if at.NVAR[x] > 1]


def p02(ctx):
    s = Set(ctx, "P02")
    n = ctx.n
    s.add(n(70, 400), dict(space=MULTI, cls=lambda r, k: r.choice(CLS), fmt=["list", "dict"]), 1,
          fail=0.1, Depth=7, Fixes={0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 14}, Ns={0, 1, 2, 6}, **ASKTELL)
    s.add(n(36, 200), dict(space=[x for x in at.REAL if x != "real1"], model=["gstub", "stub"], optimizer=optim,
                           cls=lambda r, k: r.choice(["BO", "ParallelBO"])), 2,
          fail=0.1, Depth=6, Fixes={0, 1, 2, 3, 4, 5, 6, 9}, Ns={0, 1, 2}, **ASKTELL)
    s.add(n(16, 80), dict(space=["real2", "mixr", "prec"], cons=["g2", "ghalf"], csv=False,
                          cls=lambda r, k: r.choice(["BO", "ParallelBO", "MOBO"])), 3,
          fail=0.0, Depth=4, Fixes={0, 1, 2, 4, 5, 6}, Ns={0, 1, 2}, **ASKTELL)
    s.add(n(10, 60), dict(space=["mix", "mix2", "zero"], model="rf", doe=5, cls=["BO", "ParallelBO"]), 4,
          fail=0.0, Depth=5, Fixes={0, 1, 5, 9, 10}, Ns={0, 1, 2}, **ASKTELL)
    s.add(n(6, 40), dict(space=["real2", "prec", "asym"], model="gp", doe=6, cls=["BO", "ParallelBO"]), 5,
          fail=0.0, Depth=4, Fixes={0, 1, 2, 4, 5}, Ns={0, 1, 2}, **ASKTELL)
    return s.scs


def cons_for(rng, kw):
    return rng.choice({
        "real2": ["gsum", "g2", "heq", "heqg", "tight", "ghalf", "infeas", "gsmall", "hflat", "hinf"],
        "mixr": ["gsum", "g2", "heq", "heqg", "tight", "gcat", "ghalf", "gsmall"],
        "mix": ["gcat", "gint", "ghalf", "g2", "gsmall", "gimid", "heqi", "gord", "gbool", "hinf"],
        "prec": ["gprec", "ghalf", "g2", "gsum", "gsmall", "hflat"],
        "precoff": ["ghalf", "gsmall"], "asym": ["ghalf", "gsmall"], "scales": ["ghalf", "gsmall"],
        "scalesp": ["ghalf", "gsmall"], "mix3": ["ghalf", "gsmall", "gbool"],
        "zero": ["gint", "ghalf", "gimid", "gbool", "gsmall"], "real1": ["ghalf", "gsmall"], "mix2": ["ghalf", "gint", "gimid", "heqi"],
        "subs": ["ghalf", "gsmall"], "int2": ["gimid", "heqi"], "intstep": ["gimid", "heqi"], "fin6": ["gimid", "gbool"],
        "fin4": ["gbool"], "ord": ["gord"],
    }[kw["space"]])


CONSTRAINED = ["real2", "mixr", "prec", "mix", "precoff", "scales", "scalesp", "mix3", "zero", "asym", "mix2", "subs", "int2",
               "intstep", "fin6", "fin4", "ord", "real1"]


def p03(ctx):
    s = Set(ctx, "P03")
    n = ctx.n
    s.add(n(72, 420), dict(space=CONSTRAINED + ["real2", "mixr", "mix", "prec"], cons=cons_for, fmt=["list", "dict"], corner=[None, 1.0, -1.0],
                           cls=lambda r, k: r.choice(CLS)), 1,
          fail=0.1, Depth=5, Fixes={0, 0, 1, 2, 5}, Ns={0, 1, 2}, **ASKTELL)
    s.add(n(24, 160), dict(space=["real2", "prec", "mixr"], cons=cons_for, optimizer=optim, doe=[4, 12],
                           corner=[1.0, -1.0], cls=lambda r, k: r.choice(["BO", "ParallelBO"])), 2,
          fail=0.0, Depth=5, Ns={0, 1, 3}, **ASKTELL)
    # no feasible point at all: nothing may be suggested, with and without a model
    s.add(n(12, 40), dict(space=["real2", "mix", "real2"], cons=["hinf", "hinf", "infeas"], aqfe=30, cls=["BO", "ParallelBO", "NoisyBO", "MOBO"]), 3,
          fail=0.0, Depth=4, Ns={0, 1, 3}, Kinds={"ask", "tellf"})
    return s.scs


def p04(ctx):
    s = Set(ctx, "P04")
    n = ctx.n
    s.add(n(60, 300), dict(space=["fin6", "fin4", "cat5", "int2", "ord", "intstep"],
                           cls=lambda r, k: r.choice(CLS), fmt=["list", "dict"], budget=0, target=None), 1,
          fail=0.1, Depth=10, Kinds={"ask", "tell", "tellf"}, Ns={0, 1, 2, 3}, Ks={1, 3}, FModes={"new", "dup"})
    s.add(n(40, 250), dict(space=["precoff", "prec", "mix3", "mix2", "zero", "subs", "scalesp", "real1", "real2"],
                           corner=[1.0, -1.0, None], budget=0, target=None, cls=lambda r, k: r.choice(CLS)), 2,
          fail=0.1, Depth=9, Kinds={"ask", "tell", "tellf"}, Ns={0, 1, 2, 3}, FModes={"new", "dup"})
    s.add(n(24, 120), dict(space=["fin6", "fin4", "cat5", "int2", "precoff"], fmt=["list", "dict"],
                           warm=lambda r, k: dict(form=r.choice(["sol", "list", "arr", "shuf"]), ys=[1, 3, 2, 5][:r.choice([2, 4])]),
                           cls=lambda r, k: r.choice(CLS)), 3,
          fail=0.0, Depth=7, Kinds={"ask", "tell"}, Ns={0, 1, 3})
    # the next search ends where the last one did, and that point was reported with limited accuracy
    s.add(n(20, 100), dict(space=["real1", "real2", "mixr", "asym"], corner=[1.0, -1.0], model=["gstub", "stub"], optimizer=optim, budget=0, target=None,
                           fmt=["list", "dict"], cls=lambda r, k: r.choice(["BO", "ParallelBO"])), 5,
          fail=0.0, Depth=8, Kinds={"ask", "tell"}, Ns={1, 2}, Modes={"near", "same"})
    s.add(n(20, 80), dict(space=["fin6", "fin4", "cat5", "int2", "ord", "mix3"], doe=[4, 6, 9, 30]), 4,
          Kinds={"ask"}, Ns={0, 3, 7, 12}, Fixes={0, 1}, Depth=3)
    return s.scs


ALLMODES = dict(Modes={"same", "rev", "part", "shuf", "arr"}, FModes={"new", "dup", "shuf"})


def warm(rng, kw):
    ys = rng.choice([[1, 2, 3], [at.NAN, 3], [at.NAN], [2, 2, 2, 2], [5], [3, at.PINF, -2, 1], [-1, 0]])
    return dict(form=rng.choice(["sol", "shuf", "arr", "list"]), ys=ys)


def p05(ctx):
    s = Set(ctx, "P05")
    n = ctx.n
    s.add(n(80, 500), dict(space=at.ALL, cls=lambda r, k: r.choice(CLS), fmt=["list", "dict"],
                           csv=[False, True, False], unit=[1.0, 0.25, 1000.0, 1e60, 0.1]), 1,
          Kinds={"ask", "tell", "tellf", "rec"}, Ks={1, 2, 4}, fail=0.5, Depth=9, **ALLMODES)
    s.add(n(50, 300), dict(space=at.ALL, cls=lambda r, k: r.choice(CLS), fmt=["dict", "list"], warm=warm), 2,
          Kinds={"ask", "tell", "tellf", "rec"}, Ks={1, 3}, fail=0.4, Depth=5, **ALLMODES)
    s.add(n(20, 120), dict(space=["mix", "mix2", "zero", "fin6"], cls=["ParallelBO", "NoisyBO", "MOBO", "BO"]), 3,
          Kinds={"ask", "tell", "tellf", "save", "load"}, Ks={1, 3, 7}, fail=0.6, Depth=9, **ALLMODES)
    return s.scs


def p06(ctx):
    s = Set(ctx, "P06")
    n = ctx.n
    so = CLS[:5]
    s.add(n(80, 500), dict(space=["real2", "mix", "fin6", "real1", "zero"], cls=lambda r, k: r.choice(so), min=[[True], [False]],
                           unit=[1.0, 0.1, 1e60, 1e6, 0.001]), 1,
          Kinds={"ask", "tell", "tellf", "rec"}, Ks={1, 2, 5}, fail=0.4, Depth=9, pats=30, **ALLMODES)
    s.add(n(24, 150), dict(space=["real2", "mix"], cls=lambda r, k: r.choice(so), warm=warm, min=[[True], [False]]), 2,
          Kinds={"ask", "tell", "tellf", "rec", "load"}, Ks={1, 3}, fail=0.3, Depth=5)
    s.add(n(20, 120), dict(space=["real2", "mix", "real1"], cls=lambda r, k: r.choice(so), budget=[9, 14],
                           min=[[True], [False]]), 3,
          Kinds={"step", "run", "rec", "stop"}, fail=0.3, Depth=4)
    return s.scs


def p07(ctx):
    s = Set(ctx, "P07")
    n = ctx.n
    so = CLS[:5]
    s.add(n(60, 400), dict(space=["real2", "mix", "real1"], cls=lambda r, k: r.choice(CLS), budget=[0, 3, 5, 6, 8, 12],
                           min=lambda r, k: [r.choice([True, False]) for _ in range(2)] if k["cls"] == "MOBO" else [r.choice([True, False])],
                           nobj=lambda r, k: 2 if k["cls"] == "MOBO" else 1,
                           target=lambda r, k: None if k["cls"] == "MOBO" else r.choice([None, -2, 0, 2, 4])), 1,
          Kinds={"ask", "tell", "tellf", "stop"}, Ks={1, 2, 4}, fail=0.3, Depth=9)
    s.add(n(56, 350), dict(space=["real2", "mix", "real1", "mixr"], cls=lambda r, k: r.choice(so), doe=[1, 2, 3, 5],
                           budget=[1, 2, 4, 7, 9, 13], min=[[True], [False]], target=[None, -3, 0, 4, 8]), 2,
          Kinds={"run", "stop", "step"}, fail=0.3, Depth=3, Raises={0})
    s.add(n(30, 150), dict(space=["real2", "mix"], cls=lambda r, k: r.choice(so), doe=[2, 4], warm=warm,
                           budget=[2, 4, 7], min=[[True], [False]], target=[None, 2, -3]), 3,
          Kinds={"run", "stop", "tellf", "load"}, fail=0.2, Depth=4, Raises={0})
    s.add(n(10, 60), dict(space=["real2", "mix"], cls="MOBO", budget=[4, 8, 11], doe=[2, 3]), 4,
          Kinds={"run", "stop"}, fail=0.2, Depth=2, Raises={0})
    return s.scs


def p08(ctx):
    s = Set(ctx, "P08")
    n = ctx.n
    s.add(n(70, 400), dict(space=at.ALL, cls=lambda r, k: r.choice(CLS), fmt=["list", "dict"],
                           acq=acq), 1,
          Kinds={"ask", "tell", "tellf", "slcmp", "load", "save", "stop"}, Ns={0, 1, 2}, Ks={1, 3}, fail=0.3, Depth=8,
          Modes={"same", "shuf"}, FModes={"new"})
    s.add(n(30, 160), dict(space=["real2", "mix", "fin6"], cls=lambda r, k: r.choice(CLS), csv=[True, False]), 2,
          Kinds={"ask", "tell", "savefail", "load", "rec"}, Ns={0, 1, 2}, fail=0.2, Depth=8)
    s.add(n(24, 100), dict(space=["real2", "mixr"], cons=["g2", "hg", "ghalf", "gsum", "hg", "heqg"], fmt=["list", "dict", "dict"],
                          cls=lambda r, k: r.choice(["BO", "ParallelBO"])), 3,
          Kinds={"ask", "tell", "slcmp", "load"}, Ns={0, 1}, fail=0.0, Depth=5)
    s.add(n(16, 80), dict(space=["real2", "mix"], model=["rf"], doe=5, cls=["BO", "ParallelBO", "NoisyBO"]), 4,
          Kinds={"ask", "tell", "slcmp"}, Ns={0, 1}, fail=0.0, Depth=6)
    s.add(n(8, 40), dict(space=["real2"], model=["gp"], doe=6, cls=["BO", "ParallelBO"]), 5,
          Kinds={"ask", "tell", "slcmp"}, Ns={0, 1}, fail=0.0, Depth=5)
    s.add(n(20, 100), dict(space=["real2", "mix", "fin6"], cls=lambda r, k: r.choice(CLS), warm=warm), 6,
          Kinds={"ask", "tell", "slcmp", "load", "step"}, Ns={0, 1}, fail=0.2, Depth=6)
    return s.scs


def p09(ctx):
    s = Set(ctx, "P09")
    n = ctx.n
    sp = ["real2", "fin6", "mix", "real1", "zero"]
    s.add(n(90, 600), dict(cls="MOBO", space=sp, nobj=[2, 2, 3], unit=[1.0, 0.1, 1e6, 0.001, 1e60],
                           min=lambda r, k: [r.choice([True, False]) for _ in range(k["nobj"])]), 1,
          Kinds={"ask", "tell", "tellf", "rec"}, Ns={0, 1, 3}, Ks={1, 3, 6}, fail=0.25, Depth=8, pats=40, **ALLMODES)
    s.add(n(30, 150), dict(cls="MOBO", space=sp, nobj=[2, 3], warm=warm), 2,
          Kinds={"ask", "tell", "tellf", "rec", "load"}, Ns={0, 1}, Ks={2, 5}, fail=0.25, Depth=5, pats=20)
    s.add(n(12, 80), dict(cls="MOBO", space=["real2", "mix"], nobj=[2, 3], budget=[12, 18], target=None), 3,
          Kinds={"run", "step", "rec"}, fail=0.2, Depth=3)
    return s.scs


def p19(ctx):
    s = Set(ctx, "P19")
    n = ctx.n
    s.add(n(80, 500), dict(space=["real2", "mix", "real1", "mixr", "fin6", "mix2"], cls=lambda r, k: r.choice(CLS),
                           fmt=["list", "dict"], budget=0), 1,
          Kinds={"step", "rec", "tellf", "load"}, fail=0.3, Depth=7, Raises={0, 1, 2, 3, 4})
    s.add(n(30, 200), dict(space=["real2", "mix"], cls=lambda r, k: r.choice(CLS), fmt=["list", "dict"],
                           budget=[9, 13, 6], target=lambda r, k: None if k["cls"] == "MOBO" else r.choice([None, 1])), 2,
          Kinds={"run", "step"}, fail=0.3, Depth=3, Raises={0, 3, 7})
    s.add(n(12, 80), dict(space=["real2", "mixr"], cons=["g2", "ghalf"], cls=lambda r, k: r.choice(CLS), budget=0,
                          fmt=["list", "dict"]), 3,
          Kinds={"step"}, fail=0.3, Depth=3, Raises={0, 2})
    return s.scs


def schedules(ctx, n, w, fail=()):
    """completion orders of n evaluations on w workers, all of them (TLC)"""
    from . import core
    c = dict(N=n, W=w, Fail=set(fail), Emit=True)
    body = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Paired\nINVARIANT Once\nINVARIANT Untouched\n"
    mod, cfg = at.with_consts(ctx, "Eval", c, body, name="MCEval")
    out = core.generate(ctx, mod, cfg)
    return [dict(t) for t in sorted({(("fail", x["fail"]), ("order", tuple(x["order"]))) for x in out})]


def p19par(ctx):
    """parallel evaluation under generated completion orders"""
    s = Set(ctx, "P19")
    n = ctx.n
    full = schedules(ctx, 4, 4)
    lim = schedules(ctx, 5, 2) + schedules(ctx, 5, 3)
    bad = schedules(ctx, 3, 3, fail={1, 2, 3})
    bad = [x for x in bad if x["fail"]]
    for x in (full, lim, bad):
        s.rng.shuffle(x)

    def attach(num, scheds, cfg, salt, **gen):
        k = len(s.scs)
        s.add(num, cfg, salt, **gen)
        for sc in s.scs[k:]:
            for op in sc["ops"]:
                if op["op"] in ("step", "run"):
                    x = scheds[s.rng.randrange(len(scheds))]
                    op["order"], op["raise"] = list(x["order"]), x["fail"]
            sc["key"] += "/par%d%s" % (sc.get("njob", 1), "b" if sc.get("pof") else "")
            sc["tid"] += 100000

    base = dict(space=["real2", "mix", "mixr", "real1"], fmt=["list", "dict"], budget=0, aqfe=15)
    attach(n(40, 400), full, dict(base, cls=lambda r, k: r.choice(CLS), njob=[4, 5], doe=4, npt=lambda r, k: 0 if k["cls"] in ("BO", "MOBO") else 4), 11,
           Kinds={"step"}, fail=0.3, Depth=4)
    attach(n(24, 200), lim, dict(base, cls=["ParallelBO", "MOBO", "NoisyBO"], njob=[2, 3], doe=5), 12,
           Kinds={"step"}, fail=0.3, Depth=3)
    attach(n(20, 100), bad, dict(base, cls=["ParallelBO", "MOBO", "BO"], njob=[3, 4], doe=3), 13,
           Kinds={"step"}, fail=0.3, Depth=4)
    attach(n(24, 200), full, dict(base, cls=CLS[:5], pof=True, doe=4), 14, Kinds={"step", "load"}, fail=0.3, Depth=4)
    attach(n(10, 60), full, dict(base, cls=["ParallelBO", "BO", "MOBO"], njob=[3], doe=4, budget=[9, 13],
                                 target=None), 15, Kinds={"run"}, fail=0.2, Depth=1)
    return s.scs


def p21(ctx):
    s = Set(ctx, "P21")
    n = ctx.n
    s.add(n(90, 500), dict(space=at.ALL, cls=lambda r, k: r.choice(CLS), csv=True, fmt=["list", "dict"],
                           unit=[1.0, 0.1, 0.25, 1e6]), 1,
          Kinds={"ask", "tell", "tellf"}, Ks={1, 2, 6}, fail=0.5, Depth=8, **ALLMODES)
    s.add(n(40, 200), dict(space=at.ALL, cls=lambda r, k: r.choice(CLS), csv=True, warm=warm), 2,
          Kinds={"ask", "tell", "tellf", "load", "rec", "stop"}, Ks={1, 3}, fail=0.4, Depth=6)
    s.add(n(16, 100), dict(space=["real2", "mix"], cls=lambda r, k: r.choice(CLS), csv=True, budget=[6, 9]), 3,
          Kinds={"run", "step", "load"}, fail=0.4, Depth=4, Raises={0, 2})
    # the file exists before the optimizer is constructed
    s.add(n(24, 120), dict(space=at.ALL, cls=lambda r, k: r.choice(CLS), csv=True, precsv=[1, 3], fmt=["list", "dict"],
                           warm=lambda r, k: warm(r, k) if r.random() < 0.5 else None), 4,
          Kinds={"ask", "tell", "tellf", "load"}, Ks={1, 3}, fail=0.3, Depth=5)
    return s.scs


SAMPLE = dict(MGFI="t", UCB="alpha", EpsilonPI="epsilon")


def critx(r, k):
    """what the criteria of a configuration must look like (see Criteria.tla)"""
    c = k["cls"]
    M = 1000000
    d = dict(on=True, kind="const", base=0, tf=0, maxit=0, p=1, q=1)
    if c == "AnnealingBO":
        e = k["extra"]
        it = (k["budget"] - k["doe"]) // k["npt"]
        d.update(fun="MGFI", kind=e["schedule"], base=round(e["t0"] * M), tf=round(e["tf"] * M), maxit=it)
        if e["schedule"] == "exp":
            d.update(p=1, q=2) if e["tf"] < e["t0"] else d.update(p=2, q=1)
        return d
    fun = "MULTI" if c == "MultiAcquisitionBO" else k.get("acq") or ("EI" if c == "BO" else "MGFI")
    par = k.get("acq_par") or {}
    dflt = dict(EI=0, PI=0, UCB=0.5, EpsilonPI=1e-10, MGFI=1 if c == "BO" else 2, MULTI=2)[fun]
    d.update(fun=fun, kind="self" if c == "SelfAdaptiveBO" else "const",
             base=round(M * par.get(SAMPLE.get(fun, "t"), dflt)))
    return d


def par_for(r, k):
    f = k.get("acq") or ("EI" if k["cls"] == "BO" else "MGFI")
    if k["cls"] == "MultiAcquisitionBO" or f in ("EI", "PI") or r.random() < 0.25:
        return None
    return {SAMPLE[f]: r.choice(dict(t=[0.5, 3.25, 30.0, 7.5, 0.125], alpha=[0.125, 0.75, 0.25, 0.5],
                                     epsilon=[0.0, 0.25, 0.0625, 0.0005])[SAMPLE[f]])}


def par_for2(r, k):
    p = par_for(r, k)
    return {"t": 3.25} if p == {"t": 30.0} else p


def p22(ctx):
    s = Set(ctx, "P22")
    n = ctx.n
    pre = [dict(op="tellf", k=3, mode="new", ys=[3, 1, 4])]
    sp = ["real2", "mix", "prec", "fin6", "asym", "zero", "mixr"]
    base = dict(fmt=["list", "dict"], target=None, aqfe=12, aqr=1, corner=None)
    # parameters reach the criterion unchanged in single-point requests
    s.add(n(60, 400), dict(base, budget=0, space=sp, cls=lambda r, k: r.choice(["BO", "BO", "ParallelBO", "NoisyBO", "SelfAdaptiveBO"]),
                           acq=lambda r, k: None if k["cls"] == "SelfAdaptiveBO" else acq(r, k), acq_par=par_for, critx=critx), 1, prefix=pre,
          Kinds={"ask", "tell", "tellf", "load"}, Ns={1}, Ks={1, 2}, Fixes={0, 0, 1}, fail=0.2, Depth=7)
    # batches: sampled around the configured value
    s.add(n(28, 150), dict(base, budget=0, space=["real2", "mix", "asym"], cls=["ParallelBO", "NoisyBO", "MultiAcquisitionBO"], acq=acq,
                           acq_par=par_for2, critx=critx), 2, prefix=pre,
          Kinds={"ask"}, Ns={9, 12}, fail=0.0, Depth=14)
    # schedules
    def ann(r, k):
        it = (k["budget"] - k["doe"]) // k["npt"]
        if r.random() < 0.5:
            t = (0.1 * 2 ** it, 0.1)
            return dict(schedule="exp", **dict(zip(("t0", "tf"), t if r.random() < 0.7 else t[::-1])))
        if r.random() < 0.3:
            return dict(schedule="linear", t0=r.choice([0.5, 0.25]), tf=r.choice([2, 5.5]))
        return dict(schedule="linear", t0=r.choice([2, 5.5]), tf=r.choice([0.5, 0.25]))
    s.add(n(40, 250), dict(base, space=sp, cls="AnnealingBO", doe=[2, 3, 5], npt=[2, 3],
                           budget=lambda r, k: k["doe"] + k["npt"] * r.choice([2, 4, 5]), extra=ann, critx=critx), 3, prefix=pre,
          Kinds={"ask", "tell", "load"}, Ns={0, 1, 2}, fail=0.2, Depth=10)
    # the search may find fewer points than requested, or none
    s.add(n(16, 100), dict(base, space="real2", cons=["infeas", "heq", "infeas", "hinf"], cls="AnnealingBO", doe=3, npt=[2, 3],
                           budget=lambda r, k: k["doe"] + k["npt"] * r.choice([4, 5]), extra=ann, critx=critx), 7, prefix=pre,
          Kinds={"ask", "tell", "load"}, Ns={0, 1}, fail=0.2, Depth=7)
    # every value of every parameter
    s.add(n(33, 200), dict(base, budget=0, space=sp, cls=["BO", "BO", "BO", "ParallelBO"], acq=lambda r, k: r.choice(["MGFI", "UCB", "EpsilonPI", "EpsilonPI"] if k["cls"] == "BO" else ["MGFI", "UCB"]),
                           acq_par=par_for, critx=critx), 6, prefix=pre, Kinds={"ask", "tell"}, Ns={1}, fail=0.1, Depth=3)
    # requests before the first successful evaluation do not count
    s.add(n(24, 120), dict(base, space=sp, cls="AnnealingBO", doe=[2, 3], npt=2, budget=lambda r, k: k["doe"] + 2 * r.choice([4, 5]), extra=ann, critx=critx), 5,
          Kinds={"ask", "tell", "load"}, Ns={0, 1}, Pats={(at.NAN,), (at.NAN, at.PINF), (3, 1, 4), (5, 2)}, Depth=10)
    # adaptation: batch requests alternate with single-point requests
    s.add(n(30, 200), dict(base, budget=0, space=["real2", "asym", "mix"], cls="SelfAdaptiveBO", acq_par=[None, {"t": 1.5}], critx=critx), 4, prefix=pre,
          Kinds={"ask", "tell"}, Ns={1, 2, 3, 5}, fail=0.1, Depth=10)
    return s.scs


def p23(ctx):
    s = Set(ctx, "P23")
    n = ctx.n
    s.add(n(90, 500), dict(space=at.ALL, cls=lambda r, k: r.choice(CLS), fmt=["list", "dict"],
                           unit=[1.0, 0.1, 1e60, 1e6, 0.001]), 1,
          Kinds={"ask", "tell", "tellf", "rec"}, Ks={1, 2, 6}, fail=0.4, Depth=8, pats=24, **ALLMODES)
    s.add(n(40, 200), dict(space=at.ALL, cls=lambda r, k: r.choice(CLS), warm=warm, fmt=["list", "dict"]), 2,
          Kinds={"ask", "tell", "tellf", "load"}, Ks={1, 3}, fail=0.4, Depth=6)
    s.add(n(12, 100), dict(space=["real2", "mix"], cls=lambda r, k: r.choice(CLS), budget=[9, 14]), 3,
          Kinds={"run", "step"}, fail=0.3, Depth=3)
    return s.scs


def shared(ctx, prop):
    """long histories and arbitrary combinations, for every property of the family"""
    s, n = Set(ctx, prop), ctx.n
    only = dict(P03=dict(space=CONSTRAINED, cons=some_cons), P09=dict(cls=["MOBO"]), P06=dict(cls=CLS[:5]), P21=dict(csv=True),
                P04=dict(space=["fin6", "fin4", "cat5", "int2", "precoff", "prec", "mix3", "zero", "ord", "intstep"]),
                P02=dict(space=MULTI), P07=dict(budget=[5, 9, 30, 60])).get(prop, {})
    if prop != "P22":
        anything(s, n(28, 200), 91, **only)
        if prop != "P03":
            only.pop("budget", None)
            long(s, n(8, 50), 90, **dict(only, space=None) if prop != "P04" else only)
            if prop not in ("P01", "P02", "P04", "P09"):
                flat(s, n(14, 80), 92, **{k: v for k, v in only.items() if k in ("csv", "cls")})
    for sc in s.scs:
        sc["tid"] += 200000
    return s.scs


def run(ctx, prop, extra=None):
    wait = at.design(ctx, deep=not ctx.quick(), mo=True if prop == "P09" else None)
    scs = globals()[prop.lower()](ctx)
    if prop == "P19":
        scs += p19par(ctx)
    scs += shared(ctx, prop)
    at.replay(ctx, scs, [prop])
    if extra:
        extra(ctx)
    wait()
