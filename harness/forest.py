"""Trains the random-forest surrogate on generated data and records its answers to generated
query batches."""
import numpy as np

from common import *  # noqa
import common

LEVELS = [["C", "A", "D", "B"], [3, 1, 2, 0], ["x10", "x9", "x", "X"], [2.5, -1.0, 0.5, 7.0], [True, False]]


def run(job):
    from bayes_optim import Discrete, Integer, Ordinal, Real, SearchSpace, Solution
    from bayes_optim.surrogate import RandomForest
    na, nb, y = job["na"], job["nb"], job["y"]
    st = job["tid"]
    la = LEVELS[st % 4][:na]
    lb = LEVELS[(st // 4 + 1) % 4][:nb]
    pos = st % 3        # where the numerical column stands
    pts = [(a, b) for a in la for b in lb]
    var = [Discrete(la, name="a"), Discrete(lb, name="b")]
    num = [Real([0, 1], name="r"), Integer([0, 5], name="i")][st % 2]
    var.insert(pos, num)
    space = SearchSpace(var)

    def row(p, x):
        r = [pts[p - 1][0], pts[p - 1][1]]
        r.insert(pos, x)
        return r

    form = (st // 3) % 3
    names = [v.name for v in var]

    def pack(rows):
        if form == 0:
            return Solution(rows, var_name=names)
        if form == 1:
            return rows
        a = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            a[i, :] = r
        return a

    X, Y = [], []
    for p in range(1, len(pts) + 1):
        for k in range(15):
            X.append(row(p, (k % 5) / 4 if st % 2 == 0 else k % 5))
            Y.append(10.0 * y[p - 1])
    perm = np.random.RandomState(st).permutation(len(X))
    X, Y = [X[i] for i in perm], np.array([Y[i] for i in perm])
    out, exc = [], ""
    try:
        m = RandomForest(levels=space.levels, n_estimators=20, random_state=st)
        m.fit(pack(X), Y.reshape(-1, 1) if st % 2 else Y)
        q = lambda v: clamp(round(float(v) * 1e6)) if np.isfinite(v) else BIG
        for b in job["b"]:
            yh, s = m.predict(pack([row(p, 0) for p in b]), eval_MSE=True)
            y2 = m.predict(pack([row(p, 0) for p in b]))
            yh, s, y2 = np.ravel(yh), np.ravel(s), np.ravel(y2)
            out.append([dict(v=q(v), s=q(w), z=q(u)) for v, w, u in zip(yh, s, y2)])
    except JobTimeout:
        exc = "HANG"
    except Exception as e:
        exc = exc_name(e)
    return dict(tid=job["tid"], key="forest/%s/%s" % (la, lb), scenario=job, b=job["b"], y=y, r=out, exc=exc)


if __name__ == "__main__":
    common.main(run)
