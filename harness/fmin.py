"""Replays generated tasks through the function interface."""
import random

import numpy as np

from common import *  # noqa
import common

BOXES = [[("x0", -5, 5)], [("a", -5, 5), ("b", -5, 5)], [("a", 2, 3), ("b", -100, -99.5), ("c", 0, 0.25)],
         [("a", -1, 1000), ("b", 0.125, 0.5)], [("u", 0, 1), ("v", -1, 0), ("w", 5, 6), ("z", -3, 3)]]


class Runaway(BaseException):
    """the budget is exceeded beyond any doubt"""


class GP(GStub):
    def __init__(self, *a, **k):
        super().__init__(salt=2)


def task(job, vars_):
    import bayes_optim as B
    c = job["c"]
    rng = random.Random(job["tid"])
    it = job["_it"]
    code = {}
    seq = job["ys"] + [5, 3, 8, 1, 9]
    unit = [1.0, 1e-3, 1e5][job["tid"] % 3]

    off = [7.5, 0.0][job["tid"] % 2] * unit

    def value(y):
        v = {NAN: math.nan, PINF: math.inf, NINF: -math.inf}.get(y)
        if v is None:
            v = float(y) * unit + off
            code[v] = y
        return v

    calls, raw = [], []
    flags = dict(args=True, vec=True)
    extra = [(), (3, "q"), (None,), (1, [2, 3], "s", 0), (0.5, 2, 7)][job["tid"] % 5]
    w = len(job["w"]) if c["init"] == "pts" else 0
    vals = (job["w"] if w else []) + seq

    def func(x, *args):
        if len(calls) > w + c["max"] + 200:
            raise Runaway
        flags["args"] = flags["args"] and args == extra
        try:
            (x ** 2).sum()
            row = [float(v) for v in x]
        except Exception:
            flags["vec"] = False
            row = [float(v) for v in list(x)]
        y = vals[len(calls) % len(vals)]
        calls.append(dict(id=it(("p", tuple(row))), y=y))
        raw.append(row)
        return value(y)

    lo, hi = [v.a["b"][0] for v in vars_], [v.a["b"][1] for v in vars_]
    if job["tid"] % 4 == 1:
        lo, hi = [int(v) if v == int(v) else v for v in lo], [int(v) if v == int(v) else v for v in hi]
    if len(vars_) == 1 and job["tid"] % 2:
        lo, hi = float(lo[0]), float(hi[0])
    kw = {}
    sup = []
    if c["init"] == "num":
        kw["x0"] = c["n0"]
    elif c["init"] in ("pts", "vals"):
        X = [[v.draw(rng, extreme=(k == 0)) for v in vars_] for k in range(len(job["w"]))]
        sup = [dict(id=it(("p", tuple(float(a) for a in r))), y=y) for r, y in zip(X, job["w"])]
        kw["x0"] = X if job["tid"] % 2 else np.array(X)
        if c["init"] == "vals":
            y0 = [value(y) for y in job["w"]]
            kw["y0"] = y0 if job["tid"] % 3 else np.array(y0)
    else:
        c["n0"] = 5 * len(vars_)
    if c["tgt"] != -900000:
        kw["ftarget"] = float(c["tgt"]) * unit + off
    if job["npt1"] or c["npt"] != 1:
        kw["n_point"] = c["npt"]
    if extra:
        kw["args"] = extra
    kw["acquisition_optimization"] = {"max_FEs": 20, "n_restart": 2}
    old = B.GaussianProcess
    if job["stub"]:
        B.GaussianProcess = GP
    import contextlib
    import io
    exc, ret = "", dict(x=0, y=0, e=0, i=0, b=[])
    out = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = B.fmin(func, lo, hi, max_FEs=c["max"], seed=job["seed"], **kw)
    except (Exception, Runaway) as e:
        exc = exc_name(e)
    finally:
        B.GaussianProcess = old
    if out is not None:
        fl = lambda r: tuple(float(a) for a in np.ravel(np.asarray(r, dtype=float)))
        x, f, i, e, b = out
        yv = float(np.ravel(f)[0])
        ret = dict(x=it(("p", fl(x))), y=code.get(yv, UNKNOWN), e=int(e), i=int(i),
                   b=[[it(("p", fl(r))) for r in np.atleast_2d(np.asarray(k, dtype=float))] for k in b])
    return dict(sup=sup, calls=calls, ret=ret, exc=exc, **flags), raw


def run(job):
    vars_ = [R(n, lo, hi) for n, lo, hi in BOXES[job["box"]]]
    job["_it"] = it = Interner()
    r, raw = task(job, vars_)
    again = True
    if job["twice"]:
        np.random.seed(12345)
        r2, _ = task(job, vars_)
        again = r2 == r
    del job["_it"]
    return dict(r, tid=job["tid"], c=job["c"], space=[v.desc() for v in vars_], again=again, scenario=job,
                pts=[] if r["exc"] == "Runaway" else [[v.enc(a, it) for v, a in zip(vars_, p)] for p in raw],
                key=f"fmin {job['c']} box {job['box']}")


if __name__ == "__main__":
    common.main(run)
