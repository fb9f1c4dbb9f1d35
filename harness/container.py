"""Executes generated sequences of operations on containers of solutions."""
import copy
import csv
import os

import numpy as np

from common import *  # noqa
import common

NANV = 999999


def value(v, tuples=False):
    """distinct Python values of several types for the value codes 100*row + column"""
    row, col = divmod(v, 100)
    if tuples and col == 1:
        return () if row == 2 else [(row, "a"), (row,), (0, row), ("b", row, 2)][row % 4]
    return [row, row + 0.25, "s%d" % row, row * 1000003, -row - 0.125][(col + row) % 5] if col != 3 else \
        ["c%d" % row, row + 0.5][row % 2]


def dec(col, x, cols):
    return x


def run(job):
    from bayes_optim.solution import Solution
    cols, k = job["cols"], job["nobj"]
    back = {}

    def val(code):
        v = value(code, job.get("tuples"))
        back[(code % 100, canon(v))] = code
        back[(code % 100, "csv", str(v))] = code
        return v

    colnum = {c: j + 1 for j, c in enumerate(cols)}
    fy = lambda y: [float("nan") if q == NANV else float(q) for q in y]

    def code(c, v):
        return back.get((colnum.get(c, 0), canon(v)), -1)

    def yc(y):
        return [NANV if math.isnan(q) else (clamp(round(q)) if abs(q - round(q)) < 1e-9 else -1) for q in np.asarray(y, dtype=float).ravel()]

    def seen(s):
        one = s.ndim == 1
        names = [str(c) for c in s.var_name]
        rows = np.atleast_2d(np.asarray(s.view(np.ndarray), dtype=object)).tolist() if not one else [list(s.view(np.ndarray))]
        N = len(rows)
        f = np.asarray(s.fitness, dtype=float)
        f = f.reshape(N, -1) if f.size == N * k else np.full((N, 1), np.nan)
        ne = [int(q) for q in np.ravel(s.n_eval)]
        ix = [str(q) for q in np.ravel(s.index)]
        okl = len(ne) == N and len(ix) == N
        rr = [dict(x=[code(c, v) for c, v in zip(names, r)] if len(r) == len(names) else [], y=yc(f[i]),
                   n=ne[i] if okl else -1, ix=ix[i] if okl else "!") for i, r in enumerate(rows)]
        conv, keys = [], []
        L = s.to_list()
        L = [L] if one else L
        conv.append([[code(c, v) for c, v in zip(names, r)] for r in L])
        D = s.to_dict()
        D = [D] if one else D
        conv.append([[code(c, d[c]) for c in names] if list(d) == names else [] for d in D])
        V = s.to_dict(orient="var")
        conv.append([[code(c, V[c][i]) for c in names] for i in range(N)] if list(V) == names and all(len(V[c]) == N for c in names) else [])
        if len(set(ix)) == N == len(ix):
            D = s.to_dict(with_index=True)
            keys.append([str(q) for q in D])
            conv.append([[code(c, d[c]) for c in names] for d in D.values()])
            V = s.to_dict(orient="var", with_index=True)
            conv.append([[code(c, V[c][q]) for c in names] for q in V[names[0]]])
            keys.append([str(q) for q in V[names[0]]])
        it = [list(r) for r in s] if not one else [list(s)]
        conv.append([[code(c, v) for c, v in zip(names, r)] for r in it])
        # CSV with all columns, written in two pieces every other time
        fn = os.path.join(os.environ["TMPDIR"], "c.csv")
        h = bool((N + len(ev)) % 2)
        dl = ";" if job.get("tuples") or len(ev) % 3 == 1 else ","
        if os.path.exists(fn):
            os.remove(fn)
        if one or N < 2:
            s.to_csv(fn, dl, header=h)
        else:
            s[:1].to_csv(fn, dl, header=h)
            s[1:].to_csv(fn, dl, header=False, append=True)
        with open(fn) as f_:
            lines = list(csv.reader(f_, delimiter=dl))
        okn = True
        fnames = job.get("fnames") or (["f"] if k == 1 else ["f%d" % j for j in range(k)])
        if h:
            okn = lines[0] == [""] + names + ["n_eval"] + fnames
            lines = lines[1:]
        cr = []
        for ln in lines:
            if len(ln) != 2 + len(names) + k:
                cr.append(dict(x=[], y=[], n=-1, ix="!"))
                continue
            cr.append(dict(ix=ln[0], x=[back.get((colnum[c], "csv", q), -1) for c, q in zip(names, ln[1:])],
                           n=int(float(ln[1 + len(names)])), y=yc([float(q) for q in ln[2 + len(names):]])))
        s.to_csv(fn, dl, header=True, index=False, attribute=False)
        with open(fn) as f_:
            lines = list(csv.reader(f_, delimiter=dl))
        okn = okn and lines[0] == names
        conv.append([[back.get((colnum[c], "csv", q), -1) for c, q in zip(names, ln)] for ln in lines[1:]])
        okn = okn and len(str(s)) > 0
        return dict(seen=dict(rows=rr, cols=names, one=one), n=int(s.N), dim=int(s.dim), conv=conv, csv=cr, names=bool(okn), keys=keys)

    def rowkey(A, o):
        idx = [q - 1 for q in o["idx"]]
        f, N = o["f"], A.shape[0]
        return {"slice": lambda: slice(idx[0], idx[-1] + 1), "rev": lambda: slice(None, None, -1), "int": lambda: idx[0],
                "neg": lambda: idx[0] - N, "npint": lambda: np.int64(idx[0]), "list": lambda: list(idx),
                "mask": lambda: np.array([q in idx for q in range(N)]), "arr": lambda: np.array(idx)}[f]()

    def colkey(A, o, n):
        idx = [q - 1 for q in o["idx"]]
        return {"slice": lambda: slice(idx[0], idx[-1] + 1), "int": lambda: idx[0], "neg": lambda: idx[0] - n,
                "npint": lambda: np.int64(idx[0]), "list": lambda: list(idx),
                "mask": lambda: np.array([q in idx for q in range(n)])}[o["f"]]()

    def attr(s, o):
        v = o["vals"]
        what = o["what"]
        if what == "fitness":
            v = [fy(y) for y in v]
            v = [y[0] for y in v] if k == 1 else v
            if s.ndim == 1 and k > 1:
                v = v[0]
        if o["f"] == "scalar":
            v = v[0]
        setattr(s, what, v)

    regs = {}
    ev = []
    for o in job["ops"]:
        exc = ""
        try:
            op = o["op"]
            A = regs.get(o.get("a"))
            t = o.get("t")
            if op == "new":
                X = [[val(c["x"][n]) for n in o["cols"]] for c in o["cells"]]
                kw = dict(var_name=list(o["cols"]))
                if k > 1:
                    kw["n_obj"] = k
                if job.get("fnames"):
                    kw["fitness_name"] = job["fnames"][0] if k == 1 else list(job["fnames"])
                if o["m"] == 4:
                    f = fy(o["cells"][0]["y"])
                    kw["fitness"] = f[0] if k == 1 and not o["one"] else f
                    kw["n_eval"] = o["cells"][0]["n"]
                    if o["one"]:
                        kw["index"] = o["cells"][0]["ix"]
                elif o["m"] != 1:
                    f = [fy(c["y"]) for c in o["cells"]]
                    kw["fitness"] = [q[0] for q in f] if k == 1 else f
                    kw["n_eval"] = [c["n"] for c in o["cells"]]
                if o["m"] == 3:
                    kw["index"] = [c["ix"] for c in o["cells"]]
                regs[t] = Solution(X[0] if o["one"] else X, **kw)
            elif op == "rows":
                regs[t] = A[rowkey(A, o)]
            elif op == "cols":
                n = A.shape[-1]
                regs[t] = A[colkey(A, o, n)] if A.ndim == 1 else A[:, colkey(A, o, n)]
            elif op == "rc":
                regs[t] = A[o["i"] - 1, colkey(A, o, A.shape[1])]
            elif op == "add":
                if o["f"] == "iadd":
                    X = regs[t]
                    X += regs[o["b"]]
                    regs[t] = X
                else:
                    regs[t] = A + regs[o["b"]]
            elif op == "mul":
                regs[t] = o["n"] * A if o["f"] == "left" else A * o["n"]
            elif op == "copy":
                regs[t] = {"copy": lambda x: x.copy(), "deep": copy.deepcopy, "shallow": copy.copy}[o["f"]](A)
            elif op == "uniq":
                regs[t] = A.unique()
            elif op == "fromd":
                names = [str(c) for c in A.var_name]
                order = [names[q - 1] for q in o["idx"]]
                D = A.to_dict()
                D = [D] if A.ndim == 1 else D
                D = [{c: d[c] for c in (order if i == 0 else (names, order[::-1], order)[i % 3])} for i, d in enumerate(D)]
                f = np.asarray(A.fitness, dtype=float).reshape(len(D), k)
                kw = dict(fitness=[float(q) for q in f[:, 0]] if k == 1 else f.tolist(),
                          n_eval=[int(q) for q in np.ravel(A.n_eval)], n_obj=k)
                if job.get("fnames"):
                    kw["fitness_name"] = list(job["fnames"])
                if len(ev) % 2:
                    kw["var_name"] = list(order)
                regs[t] = Solution.from_dict(D[0] if A.ndim == 1 else D, index=[str(q) for q in np.ravel(A.index)], **kw)
            elif op == "set":
                attr(A, o)
            elif op == "rset":
                i = o["i"] - 1
                row = A[{"int": i, "neg": i - A.shape[0], "slice": slice(i, i + 1)}[o["f"]]]
                attr(row, dict(o, f="each"))
            elif op == "bump":
                for r in A:
                    r.n_eval += 1
        except Exception as e:
            exc = exc_name(e)
        R = []
        for r in range(1, job["nreg"] + 1):
            if r in regs:
                try:
                    R.append(seen(regs[r]))
                except Exception as e:
                    exc = exc or ("observe:" + exc_name(e))
                    R.append(None)
            else:
                R.append(None)
        blank = dict(seen=dict(rows=[], cols=[], one=False), n=0, dim=0, conv=[], csv=[], names=True, keys=[])
        ev.append(dict(o=o, exc=exc, regs=[blank if q is None else q for q in R]))
        if exc:
            break
    return dict(tid=job["tid"], key="container/%d" % k, nreg=job["nreg"], cols=cols, nobj=k, ev=ev, scenario=job)


if __name__ == "__main__":
    common.main(run)
