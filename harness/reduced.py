"""Runs the PCA-assisted optimizer and its parts on generated cases."""
import itertools
import math

import numpy as np

from common import *  # noqa
import common

K = 100000


def milli(v):
    v = float(v)
    return clamp(round(v * 1000)) if math.isfinite(v) and abs(v * 1000 - round(v * 1000)) < 1e-4 else UNKNOWN


def ints(A):
    return [[clamp(round(float(v) * K)) for v in row] for row in np.asarray(A, dtype=float)]


def gap(a, b):
    """distance of two arrays in units of 1e-6, capped"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return BIG
    v = float(np.max(np.abs(a - b))) if a.size else 0.0
    return clamp(math.floor(v * 1e6)) if math.isfinite(v) else BIG


def run_pen(job):
    from bayes_optim.extension import LinearTransform, penalized_acquisition
    d, k = len(job["c"]), len(job["comp"])
    pca = LinearTransform(n_components=k, svd_solver="full")
    pca.fit(np.arange(3.0 * d).reshape(3, d) ** 2 + np.eye(3, d), np.arange(3.0)) if k <= min(3, d) else None
    C = np.zeros((k, d))
    for j, v in enumerate(job["comp"]):
        C[j, abs(v) - 1] = 1 if v > 0 else -1
    # the map z -> z C + mean + centre with the given offset split between both
    off = np.array(job["c"], dtype=float)
    pca.components_, pca.mean_, pca.center = C, off / 2, off / 2
    z = np.array(job["z"], dtype=float)
    bounds = [(float(l), float(h)) for l, h in zip(job["lo"], job["hi"])]
    crit, gcrit = job["tid"] % 7 - 2 + 0.5, 1 + job["tid"] % 3
    g = np.full((k, 1), float(gcrit))
    val, slope, exc = [], [], ""
    try:
        for x in (z, z.copy()):
            for b in (bounds, np.array(bounds)):
                v = penalized_acquisition(x, lambda _: crit, b, pca, False)
                val.append(milli(v))
                v = penalized_acquisition(x, lambda _: (crit, g), b, pca, True)
                val.append(milli(v[0]))
                slope.append([milli(q) for q in np.asarray(v[1], dtype=float).ravel()])
    except Exception as e:
        exc = exc_name(e)
    slope = [s if len(s) == k else [UNKNOWN] * k for s in slope]
    return dict(kind="pen", z=job["z"], comp=job["comp"], c=job["c"], lo=job["lo"], hi=job["hi"],
                val=val, slope=slope, crit=round(1000 * crit), gcrit=1000 * gcrit, exc=exc)


def image(pca, bounds):
    """range of every reduced coordinate over the corners of the box"""
    Z = pca.transform(np.array(list(itertools.product(*bounds)), dtype=float))
    return [[clamp(math.floor(a * K)), clamp(math.ceil(b * K))] for a, b in zip(Z.min(0), Z.max(0))]


def run_lin(job):
    from bayes_optim.extension import LinearTransform
    X, ys, mn = np.array(job["X"], dtype=float), np.array(job["ys"], dtype=float), job["mn"]
    N, d = X.shape
    out = dict(kind="lin", X=job["X"], ys=job["ys"], mn=mn, meanN=[UNKNOWN] * d, orth=BIG, roundtrip=BIG, same=[],
               exc="")

    def fit(X, y, mn, n=None):
        p = LinearTransform(n_components=n, svd_solver="full", minimize=mn)
        return p, p.fit_transform(X, y)

    try:
        p, Z = fit(X, ys, mn)
        out["meanN"] = [clamp(round(float(v) * N * 1000)) for v in p.mean_]
        C = p.components_
        out["orth"] = gap(C @ C.T, np.eye(len(C)))
        rt = [gap(Z, p.transform(X))]
        if len(C) == d:
            rt.append(gap(p.inverse_transform(Z), X))
        rt.append(gap(p.transform(p.inverse_transform(Z)), Z))
        out["roundtrip"] = max(rt)
        # the first components only, where they are determined by the data
        ev = p.explained_variance_
        k = next((k for k in range(1, len(ev)) if ev[k - 1] - ev[k] > 1e-3 * ev[0] and ev[k - 1] > 1e-6), 0)
        if k:
            q, Zq = fit(X, ys, mn, k)
            P = lambda p: p.components_.T @ p.components_
            out["same"].append(gap(q.transform(q.inverse_transform(Zq)), Zq))
            o = np.roll(np.arange(N), 1 + job["tid"] % 3)
            for X2, y2, m2 in ((X[o], ys[o], mn), (X, 3 * ys + 5, mn), (X, ys ** 3, mn), (X, -ys, not mn), (X + 7, ys, mn)):
                q2, Z2 = fit(X2, y2, m2, k)
                out["same"].append(gap(P(q2), P(q)))
    except Exception as e:
        out["exc"] = exc_name(e)
    return out


def pca_of(o):
    from bayes_optim.extension import LinearTransform
    return next(v for v in vars(o).values() if isinstance(v, LinearTransform))


def run_hist(job):
    import bayes_optim.extension as ext
    from bayes_optim.surrogate import GaussianProcess
    from bayes_optim.search_space import RealSpace
    tid, mn = job["tid"], job["mn"]
    d = 2 + tid % 3
    box = [(-5.0, 5.0)] * d if tid % 2 else [(-1.0 - j, 2.0 * j + 1) for j in range(d)]
    nc = {"none": None, "one": 1, "two": 2, "all": min(d, 3), "most": 0.9}[job["nc"]]
    names = ["x%d" % (j + 1) for j in range(d)]
    fits = []
    orig = GaussianProcess.fit

    def spy(self, X, y, *a, **kw):
        fits.append((np.array(X, dtype=float), np.array(y, dtype=float).ravel()))
        return orig(self, X, y, *a, **kw)

    out = dict(kind="hist", d=d, mn=mn, steps=[], exc="")
    val = lambda v: math.nan if v == NAN else v * 0.5 + 1
    code = lambda v: NAN if v != v else clamp(round((float(v) - 1) * 2))
    np.random.seed(tid % 1000)
    kw = dict(obj_fun=lambda x: 0.0, DoE_size=job["n"], max_FEs=99, verbose=False, n_components=nc, random_seed=tid % 50 + 1,
              acquisition_optimization={"optimizer": "BFGS" if tid % 3 else "OnePlusOne_Cholesky_CMA", "max_FEs": 60, "n_restart": 2})
    GaussianProcess.fit = spy
    try:
        mk = lambda m: ext.PCABO(search_space=RealSpace(box, var_name=names), minimize=m, **kw)
        o, twin = mk(mn), mk(not mn)
        for ys in [job["first"]] + [[y] for y in job["rest"]]:
            init = not out["steps"]
            X = o.ask()
            X = np.asarray(X, dtype=float)
            y = [val(v) for v in ys]
            reach = True
            if not init:
                zb = np.array(o.search_space.bounds)
                Z = pca_of(o).transform(X)
                reach = bool(np.all(np.isfinite(X)) and np.all(Z >= zb[:, 0] - 1e-6) and np.all(Z <= zb[:, 1] + 1e-6))
            inbox = bool(np.all(X >= np.array(box)[:, 0] - 1e-9) and np.all(X <= np.array(box)[:, 1] + 1e-9))
            del fits[:]
            rep = X.tolist() if tid % 2 else X
            o.tell(rep, y if tid % 4 < 2 else np.array(y))
            fx, fy = fits[-1] if fits else (np.zeros((0, 1)), np.zeros(0))
            twin.tell(X.tolist(), [-v for v in y])
            D = np.array(o.data, dtype=float).reshape(len(o.data), -1)
            p, q = pca_of(o), pca_of(twin)
            b = o.search_space.bounds
            xo = o.xopt
            order = {v: i for i, v in enumerate(sorted(set(np.round(fy, 9))))}
            out["steps"].append(dict(
                x=ints(X), y=list(ys), inbox=inbox, reach=reach, data=ints(D),
                fit=[code(v) for v in np.asarray(o.data.fitness).ravel()], evals=int(o.eval_count), iters=int(o.iter_count),
                xopt=ints(np.asarray(xo, dtype=float).reshape(1, -1))[0], fopt=code(np.asarray(xo.fitness).ravel()[0]),
                modelX=gap(fx, p.transform(D)) if D.shape[1] == d else BIG, modelN=len(fy),
                modelY=[order[v] for v in np.round(fy, 9)],
                bounds=[[clamp(math.floor(u * K)), clamp(math.ceil(v * K))] for u, v in b],
                image=image(p, box) if len(p.components_) == len(b) else [[BIG, -BIG]] * len(b),
                twin=gap(np.abs(p.components_), np.abs(q.components_))))
    except Exception as e:
        out["exc"] = exc_name(e)
        out["tb"] = traceback.format_exc()[-600:]
    finally:
        GaussianProcess.fit = orig
    return out


def run(job):
    r = run_pen(job) if "z" in job else run_lin(job) if "X" in job else run_hist(job)
    tb = r.pop("tb", "")
    r.update(tid=job["tid"], key=r["kind"], scenario=dict(job, tb=tb))
    return r


if __name__ == "__main__":
    common.main(run)
