"""Runs the restarted acquisition search with scripted inner optimizers (generated outcomes),
with the real ones, and the inner optimizers themselves; records what they do."""
import inspect
import math

import numpy as np

from common import *  # noqa
import common


def num(v):
    k = kind(v)
    if k in ("int", "float", "bool"):
        return float(v)
    return float(sum(ord(c) for c in repr(canon(v))) % 11)


def plain(x):
    if hasattr(x, "tolist"):
        x = x.tolist()
    x = list(x)
    if len(x) == 1 and isinstance(x[0], list):
        x = x[0]
    return [v.item() if isinstance(v, np.generic) else v for v in x]


def objective(name, salt):
    import random
    r = random.Random(salt)
    cs = [r.uniform(-4, 4) for _ in range(8)]
    ws = [r.choice([-1, 1]) * r.uniform(0.5, 2) for _ in range(8)]

    def f(row):
        z = [num(v) for v in row]
        if name == "sphere":
            return sum((a - c) ** 2 for a, c in zip(z, cs))
        if name == "step":
            return float(sum(math.floor(a / 2 + c) % 3 for a, c in zip(z, cs)))
        if name == "wild":
            return math.sin(sum(12.9898 * (i + 1) * a + c for i, (a, c) in enumerate(zip(z, cs)))) * 43.7
        if name == "const":
            return 2.5
        if name == "huge":
            return 1e12 * sum(w * a for w, a in zip(ws, z)) + 1.0
        return sum(w * a for w, a in zip(ws, z))       # linear
    return f


class Patch:
    def __init__(self):
        self.undo = []

    def set(self, obj, name, val):
        had = name in vars(obj)
        old = vars(obj).get(name)
        setattr(obj, name, val)
        self.undo.append((obj, name, had, old))

    def close(self):
        for obj, name, had, old in reversed(self.undo):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)


def ranks(vals):
    s = sorted(set(vals))
    return {v: i + 1 for i, v in enumerate(s)}


# ------------------------------------------------------------------ scripted searches
def run_script(job):
    import bayes_optim.acquisition.optim as O
    alg, script = job["alg"], job["runs"]
    sp = "real2" if job["tid"] % 2 or alg != "MIES" else "mixr"
    vars_ = SPACES[sp]
    space = build_space(vars_)
    ri = 0 if sp == "real2" else 1
    sign = [1.0, 0.25, 1e6][job["tid"] % 3]
    pts = []
    for i in range(len(script)):
        p = ["A", 0.5 + i / 8, -1.5 + i / 8] if sp == "mixr" else [0.5 + i / 8, -1.5 + i / 8]
        pts.append(p)
    bad = {p[ri] for p, r in zip(pts, script) if not r["ok"]} | {4.75}
    cons = job["cons"] if any(not r["ok"] for r in script) else job["cons0"]
    g = (lambda x: np.array([0.5 if plain(x)[ri] in bad else -1.0])) if cons in ("g", "gh") else None
    hv = [0.0, 0.05, -0.05][job["tid"] % 3]
    h = (lambda x: np.array([-0.5 if plain(x)[ri] in bad else hv])) if cons in ("h", "gh") else None

    def base(x):
        z = plain(x)
        return z[ri] - 2 * z[ri + 1]

    def obj(x):
        if alg == "BFGS":
            return base(x), np.array([[1.0], [-2.0]])
        return base(x)

    runs, starts = [], []
    info = dict(max=True, pen=True)
    probe = ["A", 4.75, 1.0] if sp == "mixr" else [4.75, 1.0]
    good = ["A", 4.5, 1.0] if sp == "mixr" else [4.5, 1.0]

    def consequal(a, b):
        if (a is None) != (b is None):
            return False
        return a is None or all(np.ravel(a(x)).tolist() == np.ravel(b(x)).tolist() for x in (probe, good))

    def take(budget):
        i = min(len(runs), len(script) - 1)
        r = script[i]
        runs.append(dict(f=r["f"], ok=r["ok"], n=r["n"], b=int(budget)))
        return i, r

    P = Patch()
    try:
        def fake(cls, meth, bname, names):
            sig = inspect.signature(cls.__init__)

            def init(self, *a, **k):
                ba = sig.bind(self, *a, **k)
                ba.apply_defaults()
                self._v = ba.arguments

            def go(self, *a, **k):
                v = self._v
                mn = v["minimize"]
                F = v[names[0]]
                want = base(good)
                got = float(np.ravel(F(good))[0])
                info["max"] = info["max"] and got == (-want if mn else want)
                info["pen"] = info["pen"] and consequal(v[names[1]], h) and consequal(v[names[2]], g)
                i, r = take(v[bname])
                self.eval_count = r["n"]
                f = (-1 if mn else 1) * sign * r["f"]
                if meth == "run":
                    sd = {"FEs": r["n"]} if i % 2 else {"ftol": 1e-6}
                    return np.array(pts[i]), (np.array([f]) if (i + job["tid"]) % 3 == 0 else f), sd
                return list(pts[i]), f, {"funcalls": r["n"], "max_eval": True}

            P.set(cls, "__init__", init)
            P.set(cls, meth, go)

        fake(O.MIES, "optimize", "max_eval", ("obj_func", "eq_func", "ineq_func"))
        fake(O.OnePlusOne_Cholesky_CMA, "run", "max_FEs", ("obj_fun", "h", "g"))
        if hasattr(O, "fmin_l_bfgs_b"):
            bsig = inspect.signature(O.fmin_l_bfgs_b)

            def fb(*a, **k):
                ba = bsig.bind(*a, **k)
                ba.apply_defaults()
                v = ba.arguments
                got = v["func"](np.array(good))
                info["max"] = info["max"] and float(np.ravel(got[0])[0]) == -base(good) and \
                    np.allclose(np.ravel(got[1]), [-1.0, 2.0], atol=1e-6)
                if g or h:
                    info["pen"] = info["pen"] and float(np.ravel(v["func"](np.array(probe))[0])[0]) > -base(probe)
                starts.append(tuple(plain(v["x0"])))
                i, r = take(v["maxfun"])
                f = -sign * r["f"]
                f = [f, np.float64(f), np.array(f)][(i + job["tid"]) % 3]
                return np.array(pts[i]), f, {"funcalls": r["n"], "warnflag": 0, "task": "scripted", "nit": 1, "grad": None}

            P.set(O, "fmin_l_bfgs_b", fb)
        np.random.seed(job["tid"])
        rec = dict(tid=job["tid"], k="search", exc="", n=job["n"], w=job["w"], b=job["b"], key=f"script {alg} {cons}",
                   scenario=job)
        try:
            x, f = O.argmax_restart(obj, space, h=h, g=g, eval_budget=job["b"], n_restart=job["n"], wait_iter=job["w"],
                                    optimizer=alg, logger=None)
        except Exception as e:
            return dict(rec, exc=exc_name(e), runs=[])
        if not runs:
            return dict(rec, k="skip", runs=[])
        none = len(x) == 0
        res = dict(none=none, f=0, at=[])
        if not none:
            q = float(np.ravel(f)[0]) / sign
            z = plain(x)
            res = dict(none=False, f=int(q) if q == int(q) else UNKNOWN, at=[i + 1 for i in range(len(script)) if pts[i] == z])
        return dict(rec, runs=runs, res=res, fresh=len(set(starts)) == len(starts), max=bool(info["max"]), pen=bool(info["pen"]))
    finally:
        P.close()


# ------------------------------------------------------------------------ real searches
def run_real(job):
    import bayes_optim.acquisition.optim as O
    alg, sp = job["alg"], job["space"]
    vars_ = SPACES[sp]
    space = build_space(vars_)
    f0 = objective(job["obj"], job["salt"])
    ri = [i for i, v in enumerate(vars_) if v.k == "real"]
    cons = job["cons"] if ri else "none"
    g = h = None
    if cons == "g":
        i, m = ri[0], sum(vars_[ri[0]].a["b"]) / 2
        g = lambda x: np.array([plain(x)[i] - m])
    elif cons == "never":
        g = lambda x: np.array([1.0])
    elif cons == "h":
        i = ri[0]
        lo, hi = vars_[i].a["b"]
        h = lambda x: np.array([(plain(x)[i] - lo) / (hi - lo) - 0.5])

    calls, runs, ress, first = [], [], [], []

    def obj(x):
        row = plain(x)
        v = f0(row)
        calls.append((tuple(canon(a) for a in row), v))
        if alg == "BFGS":
            gr = []
            for i in range(len(row)):
                a, b = list(row), list(row)
                a[i] += 1e-6
                b[i] -= 1e-6
                gr.append((f0(a) - f0(b)) / 2e-6)
            return v, np.array(gr).reshape(-1, 1)
        return v

    P = Patch()

    def record(call, budget):
        k0 = len(calls) if budget[1] is None else budget[1]
        out = call()
        x, f = plain(out[0]), float(np.ravel(out[1])[0])
        first.append(calls[k0][0] if len(calls) > k0 else ())
        ress.append((x, f))
        runs.append(dict(n=len(calls) - k0, b=int(budget[0])))
        return out

    try:
        for cls, meth, bname in ((O.MIES, "optimize", "max_eval"), (O.OnePlusOne_Cholesky_CMA, "run", "max_FEs")):
            def wrap(cls, meth, bname):
                sig = inspect.signature(cls.__init__)
                oinit, ometh = cls.__init__, getattr(cls, meth)

                def init(self, *a, **k):
                    ba = sig.bind(self, *a, **k)
                    ba.apply_defaults()
                    self._vb = (ba.arguments[bname], len(calls))
                    return oinit(self, *a, **k)

                P.set(cls, "__init__", init)
                P.set(cls, meth, lambda self, *a, **k: record(lambda: ometh(self, *a, **k), self._vb))
            wrap(cls, meth, bname)
        if hasattr(O, "fmin_l_bfgs_b"):
            ob = O.fmin_l_bfgs_b
            bsig = inspect.signature(ob)

            def fb(*a, **k):
                ba = bsig.bind(*a, **k)
                ba.apply_defaults()

                def call():
                    x, f, d = ob(*a, **k)
                    return x, f, d
                out = record(call, (ba.arguments["maxfun"], None))
                x = plain(space.round(np.array(out[0])))
                ress[-1] = (x, -ress[-1][1])
                return out
            P.set(O, "fmin_l_bfgs_b", fb)
        np.random.seed(job["seed"])
        rec = dict(tid=job["tid"], k="search", exc="", n=job["n"], w=job["w"], b=job["b"],
                   key=f"search {alg} {sp} {job['obj']} {cons}", scenario=job)
        try:
            x, f = O.argmax_restart(obj, space, h=h, g=g, eval_budget=job["b"], n_restart=job["n"], wait_iter=job["w"],
                                    optimizer=alg, logger=None)
        except Exception as e:
            return dict(rec, exc=exc_name(e), runs=[])
        if not runs:
            return dict(rec, k="skip", runs=[])
        none = len(x) == 0
        fv = None if none else float(np.ravel(f)[0])
        rk = ranks([r[1] for r in ress] + ([] if none else [fv]))
        for r, (xr, fr) in zip(runs, ress):
            r["f"] = rk[fr]
            ok = True
            if h is not None:
                ok = ok and bool(np.all(np.isclose(np.abs(h(xr)), 0, atol=1e-1)))
            if g is not None:
                ok = ok and bool(np.all(g(xr) <= 0))
            r["ok"] = ok
        z = [] if none else plain(x)
        res = dict(none=none, f=0 if none else rk[fv],
                   at=[i + 1 for i, (xr, _) in enumerate(ress) if xr == z])
        free = any(v.k == "real" and v.a.get("precision") is None for v in vars_)
        return dict(rec, runs=runs, res=res, max=True, pen=True,
                    fresh=(not free) or len(set(first)) == len(first))
    finally:
        P.close()


# ------------------------------------------------------------------ the inner optimizers
def once(job, seed, salt_rng=True):
    import bayes_optim.acquisition.optim as O
    import random
    vars_ = SPACES[job["space"]]
    space = build_space(vars_)
    f0 = objective(job["obj"], job["salt"])
    evals = []

    def obj(x):
        row = plain(x)
        v = f0(row)
        evals.append((row, v))
        return np.array([v]) if job["salt"] % 4 == 0 and job["alg"] != "MIES" else v

    rng = random.Random(job["salt"])
    o = job["opt"]
    if job["alg"] == "MIES":
        kw = {}
        if "pop" in o:
            kw.update(mu_=2, lambda_=5)
        if "elite" in o:
            kw.update(elitism=True)
        if seed is not None:
            np.random.seed(seed)
        m = O.MIES(space, obj, max_eval=job["budget"], minimize=job["mn"], **kw)
        x, f, sd = m.optimize()
        return evals, plain(x), float(f), kw.get("lambda_", 10), kw.get("mu_", 4), 0, int(sd["funcalls"])
    kw = {}
    if "x0" in o:
        kw["x0"] = [v.draw(rng) for v in vars_]
    if "sigma" in o:
        kw["sigma0"] = rng.choice([1e-3, 0.5, 50.0])
    if "cov" in o:
        d = len(vars_)
        kw["C0"] = rng.choice([np.diag([1.0 + i for i in range(d)]), -np.eye(d), np.eye(d) * 9])
    if "restart" in o:
        kw["n_restart"] = 2
    if "tol" in o:
        kw.update(xtol=1e-8, ftol=1e-8)
    m = getattr(O, job["alg"])(space, obj, max_FEs=job["budget"], minimize=job["mn"], random_seed=seed, **kw)
    x, f, sd = m.run()
    return (evals, plain(x), float(np.ravel(f)[0]), 1 + (kw.get("n_restart", 0) > 0), 2,
            len(evals) - 1 - len(m.hist_fopt), int(m.eval_count))


def run_inner(job):
    vars_ = SPACES[job["space"]]
    rec = dict(tid=job["tid"], k="inner", exc="", space=space_desc(job["space"]), mn=job["mn"], budget=job["budget"],
               maxrestarts=2 if "restart" in job["opt"] else 0, key=f"{job['alg']} {job['space']} {job['obj']}", scenario=job)
    try:
        evals, x, f, pop, init, nres, cnt = once(job, job["seed"])
        again = once(job, job["seed"])
        np.random.seed(job["seed"] + 1)
        u1, u2 = once(job, None), once(job, None)
    except Exception as e:
        return dict(rec, exc=exc_name(e), evals=[])
    it = Interner()
    rk = ranks([v for _, v in evals] + [f])
    same = lambda a, b: a[1] == b[1] and a[2] == b[2] and a[0] == b[0]
    free = any(v.k == "real" and v.a.get("precision") is None for v in vars_) and "x0" not in job["opt"]
    enc = lambda row: [v.enc(a, it) for v, a in zip(vars_, row)] if len(row) == len(vars_) else []
    return dict(rec, evals=[dict(p=enc(p), r=rk[v]) for p, v in evals], res=dict(p=enc(x), r=rk[f]), pop=pop, init=init,
                restarts=nres, count=cnt, again=same((evals, x, f), again[:3]),
                fresh=(not free) or u1[0][0] != u2[0][0])


def run(job):
    return dict(script=run_script, real=run_real, inner=run_inner)[job["mode"]](job)


if __name__ == "__main__":
    common.main(run)
