"""Samples from, rounds to and tests membership in generated search spaces."""
import copy
import random

import numpy as np

from common import *  # noqa
import common
from common import R, I, C, O, Bv, S

MK = [
    lambda n: R(n, -5, 5), lambda n: R(n, 0, 1), lambda n: R(n, 100, 101),
    lambda n: R(n, 0.05, 0.97, precision=1), lambda n: R(n, -3.456, 1.234, precision=2), lambda n: R(n, 0, 3, precision=0),
    lambda n: R(n, 0.001, 100, scale="log10"), lambda n: R(n, 0.5, 8, scale="log"), lambda n: R(n, 0.1, 0.9, scale="logit"),
    lambda n: R(n, -20, 50, scale="bilog"), lambda n: R(n, 0.01, 90, scale="log10", precision=2),
    lambda n: R(n, -20, 50, scale="bilog", precision=1),
    lambda n: I(n, 0, 3), lambda n: I(n, -7, 8, step=4), lambda n: I(n, 1, 11, step=5), lambda n: I(n, -3, -1),
    lambda n: C(n, "A", "B", "C"), lambda n: C(n, 1, "1", 2.5), lambda n: O(n, 10, 20, 30), lambda n: O(n, "lo", "mid", "hi"),
    lambda n: Bv(n), lambda n: S(n, "a", "b", "c"), lambda n: S(n, 1, 2),
    lambda n: R(n, 0.002, 0.998, scale="logit"), lambda n: R(n, 0.5, 1, scale="logit"), lambda n: R(n, 0, 4, scale="log10"),
    lambda n: R(n, -0.5, 0.5, scale="logit"), lambda n: R(n, -1000, 0, scale="bilog"),
]
# the bounds reach the end of the range in which the scale is defined
EDGE = {25, 26, 27}
TRANS = {
    "linear": lambda v: v, "log": math.log, "log10": math.log10, "logit": lambda v: math.log(v / (1 - v)),
    "bilog": lambda v: math.copysign(math.log(1 + abs(v)), v),
}


def num(v):
    k = kind(v)
    return float(v) if k in ("int", "float", "bool") else float(len(str(v)))


def mk_cons(name, vs, tol):
    """constraints on the first variables; real-valued results"""
    nums = [i for i, v in enumerate(vs) if v.k in ("real", "int")]
    if name == "none" or not nums:
        return None, None
    i = nums[0]
    lo, hi = vs[i].a["b"]
    mid, w = (lo + hi) / 2, hi - lo
    g1 = lambda x: (num(x[i]) - mid) / w
    if name == "g":
        return None, g1
    if name == "gl":
        return None, lambda x: [g1(x), -g1(x) - 0.3]
    if name == "ga":
        return None, lambda x: np.array([-g1(x)])
    if name == "gcat":      # depends on the last variable
        return None, lambda x: 1.0 if canon(x[len(vs) - 1]) == canon(vs[-1].draw(random.Random(1))) and vs[-1].k != "real" else -1.0
    if name == "h":
        return (lambda x: (num(x[i]) - mid) / w), None
    if name == "hg":
        return (lambda x: [(num(x[i]) - mid) / w]), (lambda x: g1(x))
    raise ValueError(name)


def run_sample(job):
    vs = [MK[p - 1]("v%d" % k) for k, p in enumerate(job["ids"])]
    tol = job["tol"]
    h, g = mk_cons(job["cons"], vs, tol)
    cons = "none" if h is None and g is None else job["cons"]
    out = dict(k="sample", n=job["n"], cons=cons, space=[v.desc() for v in vs], exc="", rows=0, cols=0, x=[], con=[],
               lhs=[], sobol=[], tenths=[], seen=[], spread=[], pure=True)
    np.random.seed(job["seed"] % 2**31)
    cs = build_space(vs)
    r0 = repr(cs)
    hs = [0]

    def wrap(f):
        return None if f is None else (lambda x: f(list(x)))

    kw = {} if cons == "none" else dict(h=h, g=g)
    if cons != "none" and job["n"] % 2:
        kw["tol"] = tol
    else:
        tol = 1e-2
    try:
        X = cs.sample(job["n"], job["m"], **kw) if cons == "none" else cs.sample(job["n"], method=job["m"], **kw)
    except Exception as e:
        out["exc"] = exc_name(e)
        return out
    out["rows"], out["cols"] = int(X.shape[0]), int(X.shape[1]) if X.ndim == 2 else 0
    rows = [list(r) for r in X.tolist()] if X.dtype == object else [list(r) for r in X]
    it = Interner()
    seen = set()
    for r in rows:
        e = [v.enc(x, it) for v, x in zip(vs, r)]
        for q in e:
            q.pop("q")
        if repr(e) not in seen:
            seen.add(repr(e))
            out["x"].append(e)
        if cons != "none":
            G = np.atleast_1d(np.asarray(g(r), dtype=float)).ravel() if g else []
            H = np.atleast_1d(np.asarray(h(r), dtype=float)).ravel() if h else []
            # a violation of the equality is expressed in units of the tolerance (0.1 in the specification)
            out["con"].append(dict(g=[clamp(math.ceil(v * 1e6)) for v in G],
                                   h=[clamp(math.ceil(abs(v) / tol * 1e5 - 1e-6)) for v in H]))
    if cons == "none" and len(rows) == job["n"]:
        for i, v in enumerate(vs):
            if v.k == "real" and v.a.get("precision") is None:
                out["spread"].append(len(set(float(r[i]) for r in rows)))
            if v.k == "real" and v.a.get("precision") is None and job["ids"][i] not in EDGE:
                T = TRANS[v.a.get("scale", "linear")]
                lo, hi = T(v.a["b"][0]), T(v.a["b"][1])
                at = lambda m: [int(min(max(math.floor((T(float(r[i])) - lo) / (hi - lo) * m + 1e-7), -1), m)) for r in rows]
                if job["m"] == "sobol" and job["n"] & (job["n"] + 1) == 0:
                    out["sobol"].append(at(job["n"] + 1))
                if job["n"] >= 300:
                    w = at(10)
                    out["tenths"].append([w.count(k) + (k == 9) * w.count(10) for k in range(10)])
            if v.k == "real" and v.a.get("precision") is None and job["m"] == "LHS" and job["ids"][i] not in EDGE:
                T = TRANS[v.a.get("scale", "linear")]
                lo, hi = T(v.a["b"][0]), T(v.a["b"][1])
                sl = []
                for r in rows:
                    q = (T(float(r[i])) - lo) / (hi - lo) * job["n"]
                    sl.append(int(min(max(math.floor(q), -1), job["n"])))
                out["lhs"].append(sl)
            if v.k != "real" and job["n"] >= 300:
                out["seen"].append(dict(i=i + 1, v=sorted(set(v.enc(r[i], it)["a"] for r in rows))))
    if job["n"] >= 300:
        out["x"] = out["x"][:80]
    out["pure"] = repr(cs) == r0
    return out


def run_member(job):
    rng = random.Random(job["seed"])
    vs = [MK[p - 1]("v%d" % k) for k, p in enumerate(job["ids"])]
    cs = build_space(vs)
    out = dict(k="member", space=[v.desc() for v in vs], m=[], pm=[], exc="")

    def cand(v):
        """(value, a, b) inside and outside of the declaration"""
        d = v.desc()
        if v.k == "real":
            u = float(Fraction(v.unit))
            res = []
            edge = job["ids"][vs.index(v)] in EDGE      # the range is narrowed to where the scale is defined
            for a in [d["lo"], d["hi"], d["lo"] - 1, d["hi"] + 1, (d["lo"] + d["hi"]) // 2, d["lo"] - 10**6, d["hi"] + 10**6]:
                res.append((float(a * Fraction(v.unit)), a, 0))
            if edge:
                return [r for r in res if d["lo"] < r[1] < d["hi"] and r[0] > 0 or r[1] < d["lo"] or r[1] > d["hi"]]
            res.append((float("nan"), d["hi"] + 1, 1))
            res.append((float("inf"), d["hi"] + 1, 0))
            res.append((float("-inf"), d["lo"] - 1, 0))
            res.append((float(np.nextafter(v.a["b"][1], np.inf)), d["hi"], 1))
            res.append((float(np.nextafter(v.a["b"][0], -np.inf)), d["lo"] - 1, 1))
            return res
        if v.k == "int":
            res = [(a, a, 0) for a in range(d["lo"] - 3, d["hi"] + 4)]
            return res + [(d["lo"] + 0.5, d["lo"], 1), (d["hi"] - 0.25, d["hi"] - 1, 1)]
        res = [(x, i + 1, 0) for i, x in enumerate(v.levels())]
        return res + [("no such level", 0, 0), (977, 0, 0), (("zz",), 0, 0)]

    try:
        for i, v in enumerate(vs):
            for x, a, b in cand(v):
                out["m"].append(dict(i=i + 1, a=a, b=b, got=bool(x in cs.data[i])))
        for _ in range(60):
            pick = [rng.choice(cand(v)) if rng.random() < min(0.3, 1 / len(vs)) or p in EDGE else (lambda x: (x, v.enc(x, Interner())["a"], v.enc(x, Interner())["b"]))(v.draw(rng, rng.random() < 0.3))
                    for v, p in zip(vs, job["ids"])]
            pt = [p[0] for p in pick]
            form = rng.randrange(2)
            x = pt if form == 0 else {v.name: q for v, q in rng.sample(list(zip(vs, pt)), len(vs))}
            out["pm"].append(dict(v=[dict(a=p[1], b=p[2]) for p in pick], got=bool(x in cs)))
    except Exception as e:
        out["exc"] = exc_name(e)
    return out


def run_round(job):
    """codes are in units of 10^-(dig)"""
    from bayes_optim.search_space import RealSpace
    from bayes_optim.search_space.variable import Bool, Real
    from bayes_optim.search_space import SearchSpace
    pr, dig = job["pr"], job["dig"]
    prec = {1: dig, 10: dig - 1, 100: dig - 2}[pr]
    u = Fraction(1, 10**dig) if dig >= 0 else Fraction(10**-dig)
    f = lambda a: float(a * u)
    out = dict(k="round", lo=job["lo"], hi=job["hi"], pr=pr, v=job["v"], out=[], exc="", pure=True)

    def add(y):
        a, b = grid(float(y), u)
        out["out"].append(dict(a=a, b=b))

    try:
        v = Real([f(job["lo"]), f(job["hi"])], name="x", precision=prec)
        x = f(job["v"])
        arr = np.array([x, x])
        y = v.round(arr)
        out["pure"] = bool(np.all(arr == x))
        for q in y:
            add(q)
        cs = RealSpace([[f(job["lo"]), f(job["hi"])], [0, 1]], precision=[prec, None])
        Y = cs.round([[x, 0.123456789]])
        add(Y[0][0])
        out["pure"] = out["pure"] and float(Y[0][1]) == 0.123456789
        cs = SearchSpace([Bool(name="b"), v, Real([0, 1], name="z")])
        Y = cs.round([[True, x, 0.123456789], [False, x, 0.5]])
        add(Y[0][1])
        add(Y[1][1])
        out["pure"] = out["pure"] and Y[0][0] is True and float(Y[0][2]) == 0.123456789 and Y[1][0] is False
    except Exception as e:
        out["exc"] = exc_name(e)
    return out


def run(job):
    r = {"sample": run_sample, "member": run_member, "round": run_round}[job["k"]](job)
    r.update(tid=job["tid"], scenario=job, key=job["k"] + ":" + job.get("m", "") + ":" + job.get("cons", ""))
    return r


if __name__ == "__main__":
    common.main(run)
