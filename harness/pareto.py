"""Runs the non-domination, hypervolume and partitioning code on generated point sets."""
import math
import random

import numpy as np

from common import *  # noqa
import common

INF = 1000000


def run(job):
    import torch
    from bayes_optim.utils import is_pareto_efficient
    from bayes_optim.utils.multi_objective import (Hypervolume, fast_non_dominated_sort, is_non_dominated,
                                                   non_dominated_set_2d)
    from bayes_optim.utils.multi_objective.box_decompositions import non_dominated as ND

    ys, ref, m = job["ys"], job["ref"], job["m"]
    n = len(ys)
    unit = [Fraction(u) for u in job["unit"]]
    off = [Fraction(o) for o in job["off"]]
    val = lambda v: [float(off[k] + unit[k] * x) for k, x in enumerate(v)]
    dt = torch.float64 if job["dt"] == 64 else torch.float32

    def code(v, k):
        v = float(v)
        if math.isinf(v):
            return INF if v > 0 else -INF
        if math.isnan(v):
            return 2 * INF
        q = (Fraction(v) - off[k]) / unit[k]
        return clamp(int(q)) if q.denominator == 1 else 3 * INF

    vol = float(np.prod([float(u) for u in unit]))

    def hvcode(v):
        q = float(v) / vol
        return clamp(round(q)) if abs(q - round(q)) < 1e-9 else -INF

    out = dict(tid=job["tid"], key="m%d n%d" % (m, n), ys=ys, ref=ref, m=m, top=job["top"], bot=min(min(ref), 0),
               exc="", same=True, nd_max=[], nd_min=[], isnd=[], isnd_all=[], ispe=[], ispe_idx=[], fronts=[], hv=[],
               parts=[], scenario=job)
    A = np.array([val(v) for v in ys], dtype=np.float64 if dt == torch.float64 else np.float32).reshape(n, m)
    A0 = A.copy()
    T = torch.tensor(A)
    T0 = T.clone()
    r = torch.tensor(val(ref), dtype=dt)
    r0 = r.clone()
    idx = lambda a: [int(i) + 1 for i in np.asarray(a).ravel()]
    rng = random.Random(job["tid"])
    try:
        if m == 2:
            out["nd_max"] = idx(non_dominated_set_2d(A, minimize=False))
            out["nd_min"] = idx(non_dominated_set_2d(A, minimize=True))
        out["isnd"] = idx(torch.nonzero(is_non_dominated(T)))
        out["isnd_all"] = idx(torch.nonzero(is_non_dominated(T, deduplicate=False)))
        out["ispe"] = idx(np.nonzero(is_pareto_efficient(A))[0])
        out["ispe_idx"] = sorted(idx(is_pareto_efficient(A, return_mask=False)))
        out["fronts"] = [idx(f) for f in fast_non_dominated_sort(A.T)]
        h = Hypervolume(ref_point=r)
        U = T if m <= 3 else T[is_non_dominated(T, deduplicate=False)]     # beyond: documented for antichains only
        for _ in range(2):
            out["hv"].append(hvcode(h.compute(U)))
        p = list(range(len(U)))
        rng.shuffle(p)
        out["hv"].append(hvcode(Hypervolume(ref_point=r).compute(U[p])))
        out["hv"].append(hvcode(Hypervolume(ref_point=r).compute(T[is_non_dominated(T)])))
        for cls in (ND.NondominatedPartitioning, ND.FastNondominatedPartitioning):
            for split in job["splits"]:
                cuts = [0] + [c for c in split if c <= n] + [n]
                d = None
                for a, b in zip(cuts, cuts[1:]):
                    if d is None:
                        if a == b:
                            continue
                        d = cls(ref_point=r, Y=T[a:b])
                    else:
                        d.update(T[a:b])
                if d is None:
                    continue
                b = d.get_hypercell_bounds()
                boxes = [dict(lo=[code(x, k) for k, x in enumerate(lo)], hi=[code(x, k) for k, x in enumerate(hi)])
                         for lo, hi in zip(b[0].tolist(), b[1].tolist())]
                out["parts"].append(dict(boxes=boxes, hv=hvcode(d.compute_hypervolume()),
                                         front=[[code(x, k) for k, x in enumerate(v)] for v in d.pareto_Y.tolist()]))
    except JobTimeout:
        out["exc"] = "HANG"
    except Exception as e:
        out["exc"] = exc_name(e)
    out["same"] = bool(np.array_equal(A, A0) and torch.equal(T, T0) and torch.equal(r, r0))
    return out


if __name__ == "__main__":
    common.main(run)
