"""Evaluates the acquisition criteria on generated predictions."""
import math

import numpy as np

from common import *  # noqa
import common


class Fixed:
    """model with one prediction (mean, variance) and known data"""

    def __init__(self, m, v, y=None, sigma2=None, shape=0):
        self.m, self.v, self.shape = m, v, shape
        if y is not None:
            self.y = np.array(y, dtype=float)
        if sigma2 is not None:
            self.sigma2 = np.array([sigma2])

    def predict(self, X, eval_MSE=False):
        a, b = np.array([self.m], dtype=float), np.array([self.v], dtype=float)
        if self.shape:
            a, b = a.reshape(-1, 1), b.reshape(-1, 1)
        return (a, b) if eval_MSE else a


class Linear:
    """prediction linear in x: mean a0 + a.x, variance b0 + b.x"""

    def __init__(self, a0, a, b0, b):
        self.a0, self.a, self.b0, self.b = a0, np.array(a, float), b0, np.array(b, float)

    def predict(self, X, eval_MSE=False):
        X = np.atleast_2d(np.asarray(X, dtype=float))
        m, v = self.a0 + X @ self.a, self.b0 + X @ self.b
        return (m, v) if eval_MSE else m

    def gradient(self, X):
        return self.a.reshape(1, -1).copy(), self.b.reshape(1, -1).copy()


def build(f, par, model, mn, plugin):
    from bayes_optim.acquisition import acquisition_fun as A
    if f == "UCB":
        return A.UCB(alpha=par / 2, model=model, minimize=mn)
    if f == "EI":
        return A.EI(model=model, minimize=mn, plugin=plugin)
    if f == "PI":
        return A.PI(model=model, minimize=mn, plugin=plugin)
    if f == "EPI":
        return A.EpsilonPI(epsilon=[0.0, 1e-10, 0.01, 0.2, 0.5][par % 5], model=model, minimize=mn, plugin=plugin)
    # MGFS: MGFI on predictions of a tiny scale
    return A.MGFI(t=par / 2, model=model, minimize=mn, plugin=plugin)


def fl(v):
    a = np.asarray(v, dtype=float).ravel()
    return float(a[0]) if a.size == 1 else math.nan


def run_lat(job):
    f, par, u = job["crit"]["f"], job["crit"]["par"], float(Fraction(job["unit"]))
    qs, vals = job["q"], []
    pure = True
    x = np.array([[0.3, -0.7]])
    for k, q in enumerate(qs):
        m, s, pl = q["m"] * u, q["s"] * u, q["pl"] * u
        y = None
        if job["auto"]:     # incumbent taken from the data of the model
            y = [pl, pl + u, pl + 3 * u] if q["mn"] else [pl - 2 * u, pl, pl - u]
        mod = Fixed(m, s * s, y=y, sigma2=((u * job["sigma2"]) ** 2 if job["sigma2"] else None), shape=job["shape"])
        try:
            c = build(f, par, mod, q["mn"], None if job["auto"] else pl)
            v = fl(c(x.copy()))
            v2 = fl(c([0.3, -0.7]))
            if f != "UCB" and not job["auto"]:      # changing the incumbent afterwards
                c.plugin = pl + u
                c.plugin = pl
            v3 = fl(c(x.copy()))
            pure = pure and v == v2 == v3
        except Exception:
            v = math.nan
        vals.append(v)
    su = u if f in ("UCB", "EI") else 1.0
    fin = sorted(set(v for v in vals if math.isfinite(v)))
    rank, r, prev = {}, 0, None
    for v in fin:
        if prev is not None and v - prev > 1e-9 * max(abs(v), abs(prev)) + (1e-12 * su if f == "UCB" else 1e-290):
            r += 1
        rank[v] = r
        prev = v
    res = []
    for v in vals:
        ok = math.isfinite(v)
        sc = {"UCB": 2.0, "MGFI": 1e4}.get(f, 1e6)
        e = v / su * sc * (math.exp(par / 2) if f == "MGFS" else 1) if ok else 0.0
        if f == "UCB" and abs(e - round(e)) > 1e-6:
            e = BIG
        res.append(dict(r=rank[v] if ok else 0, ok=ok, neg=bool(ok and v < 0), gt1=bool(ok and v > 1), e=clamp(round(e))))
    return dict(k="lat", crit=job["crit"], q=qs, v=res, pure=bool(pure))


def run_grad(job):
    x, a, b = job["x"], job["a"], job["b"]
    d = len(a)
    out = dict(k="grad", exc="", same=True, fd=[], gr=[])
    try:
        mod = Linear(x["a0"], a, x["b0"] * 1.0 + 0.5, b)
        c = build(x["f"], x["par"], mod, x["mn"], float(x["pl"]))
        p = np.array([0.05 + 0.02 * k for k in range(d)])
        v, g = c(p.reshape(1, -1).copy(), return_dx=True)
        g = np.asarray(g, dtype=float).ravel()
        out["same"] = bool(fl(v) == fl(c(p.reshape(1, -1).copy())))
        h = 1e-5
        fd = []
        for k in range(d):
            e = np.zeros(d)
            e[k] = h
            fd.append((fl(c((p + e).reshape(1, -1))) - fl(c((p - e).reshape(1, -1)))) / (2 * h))
        fd = np.array(fd)
        if g.shape != fd.shape or not np.all(np.isfinite(g)):
            out["exc"] = "shape"
            return out
        # components relative to the largest numerical derivative; differences of values
        # below the resolution of floating point say nothing
        s = float(np.max(np.abs(fd)))
        if s > 1e-7 * max(abs(fl(v)), 1e-6):
            out["fd"] = [clamp(round(10000 * q / s)) for q in fd]
            out["gr"] = [clamp(round(10000 * q / s)) for q in g]
    except Exception as e:
        out["exc"] = exc_name(e)
    return out


class MO:
    def __init__(self, mu, sd):
        self.mu, self.sd = mu, sd

    def predict(self, X, eval_MSE=False):
        n = len(X)
        m = np.array([self.mu] * n, dtype=float)
        return (m, np.full(m.shape, self.sd**2)) if eval_MSE else m


def run_ehvi(job):
    import torch
    from bayes_optim.multi_objective.analytic import EHVI
    from bayes_optim.utils.multi_objective.box_decompositions.non_dominated import NondominatedPartitioning
    out = dict(k="ehvi", ys=job["ys"], ref=job["ref"], mu=job["mu"], exc="", tiny=0, one=0, up=[], nonneg=True, order=True)
    try:
        u = float(Fraction(job["unit"]))
        Y, ref = np.array(job["ys"], float) * u, [float(v) * u for v in job["ref"]]

        def val(mu, sd, Y=Y):
            P = NondominatedPartitioning(ref_point=torch.Tensor(ref), Y=torch.Tensor(Y))
            return fl(EHVI(model=MO(mu, sd), ref_point=list(ref), partitioning=P)(np.array([[0.1, 0.2]])))

        mu = [float(v) * u for v in job["mu"]]
        vol = float(np.prod([max(Y[:, k].max(), mu[k]) - ref[k] + 3 * u for k in range(len(ref))]))
        v0 = val(mu, 0.0) / u ** len(mu)
        out["tiny"] = clamp(round(1000 * v0))
        out["one"] = clamp(round(1e6 * val(mu, u) / u ** len(mu)))
        for sd in (0.0, 0.5 * u, u):
            w = val(mu, sd)
            out["nonneg"] = bool(out["nonneg"] and w >= -1e-4 * vol)
            for k in range(len(mu)):
                m2 = list(mu)
                m2[k] += 0.5 * u
                out["up"].append(bool(val(m2, sd) >= w - 1e-4 * vol))
        out["order"] = bool(abs(val(mu, 0.5 * u, Y[::-1].copy()) - val(mu, 0.5 * u)) <= 1e-4 * vol)
    except Exception as e:
        out["exc"] = exc_name(e)
    return out


def run(job):
    r = {"lat": run_lat, "grad": run_grad, "ehvi": run_ehvi}[job["k"]](job)
    r.update(tid=job["tid"], scenario=job,
             key=job["k"] + ":" + (job["crit"]["f"] if "crit" in job else job["x"]["f"] if "x" in job else "EHVI"))
    return r


if __name__ == "__main__":
    common.main(run)
