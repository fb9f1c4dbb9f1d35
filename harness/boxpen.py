"""Runs the box reflection and the dynamic penalty on generated cases."""
import math

import numpy as np

from common import *  # noqa
import common

INF = 1000000


def run_box(job):
    from bayes_optim.utils import handle_box_constraint as f
    u = float(Fraction(job["unit"]))
    val = lambda v: math.inf if v >= INF else -math.inf if v <= -INF else v * u
    x, lo, hi = ([val(v) for v in job[k]] for k in ("x", "lo", "hi"))
    d = len(x)
    out, inside, exc = [], True, ""

    def add(y):
        nonlocal inside
        row = []
        for k, v in enumerate(np.asarray(y, dtype=float).ravel()):
            q = float(v) / u
            tol = 1e-9 * (1 + abs(job["x"][k]) + abs(q))
            row.append(clamp(round(q)) if math.isfinite(q) and abs(q - round(q)) <= tol else 2 * INF)
            if math.isfinite(lo[k]) and math.isfinite(hi[k]):
                inside = inside and bool(lo[k] - tol * u <= v <= hi[k] + tol * u)
        out.append(row)

    A = lambda v: np.array(v, dtype=float)
    n = 0
    try:
        r = f(A(x), A(lo), A(hi))
        n += 1
        add(r) if np.shape(r) == (d,) else None
        r = f(list(x), list(lo), list(hi))
        n += 1
        add(r) if np.shape(r) == (d,) else None
        # batches: rows are points, or columns are points; the others must not interfere
        m = d + 1
        other = [[v + (j + 1) * 0.37 * u for v in x] for j in range(m - 1)]
        B = np.array([x] + other, dtype=float)
        r = f(B.copy(), A(lo), A(hi))
        n += 1
        add(r[0]) if np.shape(r) == (m, d) else None
        r = f(B.T.copy(), A(lo).reshape(-1, 1), A(hi).reshape(-1, 1))
        n += 1
        add(r[:, 0]) if np.shape(r) == (d, m) else None
        if len(set(zip(lo, hi))) == 1 and math.isfinite(lo[0]) and math.isfinite(hi[0]):
            r = f(A(x), lo[0], hi[0])       # common scalar bounds
            n += 1
            add(r) if np.shape(r) == (d,) else None
    except Exception as e:
        exc = exc_name(e)
    return dict(kind="box", x=job["x"], lo=job["lo"], hi=job["hi"], out=out, n=n, inside=bool(inside), exc=exc)


def run_pen(job):
    from bayes_optim.utils import dynamic_penalty as f
    rows, p = job["rows"], job["p"]
    hv = lambda k: float(Fraction(k, 20))
    gv = lambda k: math.copysign(k * k / 4.0, k)
    style = job["tid"] % 4
    wrap = {0: lambda v: v, 1: lambda v: np.array(v), 2: lambda v: tuple(v), 3: lambda v: v[0] if len(v) == 1 else v}[style]
    h = (lambda x: wrap([hv(v) for v in rows[int(x[1])]["h"]])) if rows[0]["h"] else None
    g = (lambda x: wrap([gv(v) for v in rows[int(x[1])]["g"]])) if rows[0]["g"] else None
    X = [[("s%d" % i) if style % 2 else 0.5 + i, i] for i in range(len(rows))]
    kw = dict(C=p["c"] / 2, alpha=p["alpha"], beta=p["beta2"] / 2, epsilon=hv(p["eps"]), minimize=p["mn"])
    default = p["c"] == 1 and p["alpha"] == 1 and p["beta2"] == 3 and p["eps"] == 2
    if default:
        kw = dict(minimize=p["mn"])
    out, zero, exc = [], [], ""
    code = lambda v: clamp(round(v * 320)) if abs(v * 320 - round(v * 320)) <= 1e-6 * (1 + abs(v * 320)) else 2 * INF
    try:
        r = np.asarray(f(X, p["t"], h, g, **kw), dtype=float).ravel()
        out.append([code(float(v)) for v in r])
        zero.append([bool(v == 0) for v in r])
        r = np.asarray(f(np.array(X, dtype=object), p["t"], h, g, **kw), dtype=float).ravel()
        out.append([code(float(v)) for v in r])
        zero.append([bool(v == 0) for v in r])
        r = np.concatenate([np.asarray(f(x, p["t"], h, g, **kw), dtype=float).ravel() for x in X])   # single points
        out.append([code(float(v)) for v in r])
        zero.append([bool(v == 0) for v in r])
    except Exception as e:
        exc = exc_name(e)
    zero = [z if len(z) == len(rows) else [False] * len(rows) for z in zero]
    return dict(kind="pen", rows=rows, p=p, out=out, zero=zero, exc=exc)


def run(job):
    r = run_box(job) if "x" in job else run_pen(job)
    r.update(tid=job["tid"], key=r["kind"], scenario=job)
    return r


if __name__ == "__main__":
    common.main(run)
