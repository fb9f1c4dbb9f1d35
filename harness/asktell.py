"""Driver of the ask/tell state machine: replays generated operation sequences on a real
optimizer and records, after every operation, the projected state."""
import copy
import json
import math
import os
import random
import shutil
import tempfile
import threading
import time
from contextlib import nullcontext

import numpy as np

from common import *  # noqa
import common


def import_cls(name):
    import bayes_optim as b
    from bayes_optim import bayes_opt, extension, mobo
    for m in (bayes_opt, extension, mobo):
        if hasattr(m, name):
            return getattr(m, name)
    raise ValueError(name)


class Codes:
    """objective values <-> small integer codes"""

    def __init__(self, unit, off=0.0):
        self.unit, self.off = unit, off
        self.back = {}

    def val(self, c):
        if c == NAN:
            return float("nan")
        if c == PINF:
            return float("inf")
        if c == NINF:
            return float("-inf")
        # codes from 700000 on lie in a far away, equally spaced band
        v = (7e11 + (c - 700000) * 0.25) * max(1.0, self.unit / 1e6) if c >= 700000 else float(c * self.unit + self.off)
        self.back[v] = c
        return v

    def code(self, v):
        try:
            v = float(v)
        except Exception:
            return UNKNOWN
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return PINF if v > 0 else NINF
        return self.back.get(v, UNKNOWN)


# constraint functions, written on dictionaries of values; the optimizer receives a
# wrapper in the configured format which records how it was called
def _g_sum(d):
    k = [v for v in d.values() if kind(v) in ("float", "int") and True]
    return sum(float(v) for v in k[:2])


CONS = {
    "none": (None, None),
    "gsum": (None, lambda d, V: _num(d, V)[0] + _num(d, V)[1]),
    "ghalf": (None, lambda d, V: _num(d, V)[0] - 0.25 * (V[_reals(V)[0]].a["b"][0] * 2 + V[_reals(V)[0]].a["b"][1] * 2)),
    "gcat": (None, lambda d, V: 1.0 if d["d"] == "A" else -1.0),
    "g2": (None, lambda d, V: [_num(d, V)[0] - 2.0, -3.0 - _num(d, V)[0]]),
    "heq": (lambda d, V: _num(d, V)[0] + _num(d, V)[1], None),
    "heqg": (lambda d, V: _num(d, V)[0] - _num(d, V)[1], lambda d, V: _num(d, V)[0]),
    "hg": (lambda d, V: 0.3 * _num(d, V)[-1] / max(abs(b) for b in V[_reals(V)[-1]].a["b"]), lambda d, V: _num(d, V)[0] - 0.5 * sum(V[_reals(V)[0]].a["b"])),
    "gprec": (None, lambda d, V: abs(_num(d, V)[0]) - 1.25),
    "gint": (None, lambda d, V: d["i"] - 5),
    # a flat constraint: slight violations are just as likely as feasible points
    "gsmall": (None, lambda d, V: 1e-3 * (_num(d, V)[0] - 0.5 * sum(V[_reals(V)[0]].a["b"]))),
    "hflat": (lambda d, V: 0.3 * _num(d, V)[-1] / max(abs(b) for b in V[_reals(V)[-1]].a["b"]), None),
    # constraints on variables that are not real
    "gimid": (None, lambda d, V: d["i"] - 0.5 * sum(next(v for v in V if v.name == "i").a["b"])),
    "heqi": (lambda d, V: d["i"] - next(v for v in V if v.name == "i").a["b"][0], None),
    "gord": (None, lambda d, V: [d["o"] - 25, -1.0]),
    "gbool": (None, lambda d, V: [1e-3 if d["b"] else -1.0]),
    "hinf": (lambda d, V: 0.2 + 0.1 * abs(_num(d, V)[0]), lambda d, V: [-1.0, -0.5]),
    "infeas": (None, lambda d, V: 1.0 + abs(_num(d, V)[0])),
    "tight": (None, lambda d, V: _num(d, V)[0] ** 2 + _num(d, V)[1] ** 2 - 0.5),
}


def _reals(V):
    return [i for i, v in enumerate(V) if v.k == "real"]


def _num(d, V):
    return [float(d[V[i].name]) for i in _reals(V)]


class Session:
    def __init__(self, sc):
        self.sc = sc
        self.V = SPACES[sc["space"]]
        self.names = [v.name for v in self.V]
        self.iv = Interner()       # values
        self.ip = Interner()       # points
        self.pts = []
        self.nobj = sc.get("nobj", 1)
        self.codes = Codes(sc.get("unit", 1.0), sc.get("off", 0.0))
        self.rng = random.Random(sc["seed"] * 1009 + 7)
        self.fmt = sc.get("fmt", "list")
        self.dir = tempfile.mkdtemp(prefix="at_")
        self.csv = os.path.join(self.dir, "data.csv") if sc.get("csv") else None
        self.pre = ""
        if self.csv and sc.get("precsv"):       # an earlier run left its rows behind
            self.pre = "".join("%d,old,%d,1,%d.5\n" % (i, i, i) for i in range(sc["precsv"]))
            with open(self.csv, "w") as f:
                f.write(self.pre)
        self.last = None
        self.ncons = 0
        self.consbad = 0
        self.fixnow = {}
        self.crit = None
        self.calls = []
        self.o = None
        self.lock = threading.RLock()
        self.cond = threading.Condition()
        self.order, self.arrived, self.finished, self.aborted, self.asked = [], {}, [], False, []

    def __getstate__(self):         # constraint functions inside checkpoints refer to this driver
        return {k: v for k, v in self.__dict__.items() if k not in ("lock", "cond")}

    def __setstate__(self, d):
        self.__dict__.update(d)
        self.lock = threading.RLock()
        self.cond = threading.Condition()

    # ---- points
    def as_dict(self, x):
        if isinstance(x, dict):
            return {k: x[k] for k in self.names if k in x}
        return dict(zip(self.names, list(x)))

    def pid(self, x):
        """intern a point (list / dict / array row); malformed points get id 0"""
        if isinstance(x, dict):
            if set(map(str, x.keys())) != set(self.names):
                return 0
            vals = [x[n] for n in self.names]
        else:
            vals = list(x)
            if len(vals) != len(self.names):
                return 0
        key = tuple(canon(v) for v in vals)
        n0 = len(self.ip.d)
        i = self.ip(key)
        if len(self.ip.d) > n0:
            enc = [v.enc(x_, self.iv) for v, x_ in zip(self.V, vals)]
            g, h = self.cons_values(dict(zip(self.names, vals)))
            self.pts.append(dict(v=enc, g=g, h=h))
        return i

    def cons_values(self, d):
        h, g = CONS[self.sc.get("cons", "none")]
        try:
            gs = [clamp(math.ceil(float(v) * 1e6)) for v in np.atleast_1d(g(d, self.V))] if g else []
            hs = [clamp(math.ceil(abs(float(v)) * 1e6)) for v in np.atleast_1d(h(d, self.V))] if h else []
        except Exception:
            gs, hs = [BIG], []
        return gs, hs

    def cons_fun(self, which):
        f = CONS[self.sc.get("cons") or "none"][which]
        if f is None:
            return None

        def fun(x):
            self.ncons += 1
            ok = isinstance(x, dict) if self.fmt == "dict" else isinstance(x, (list, tuple, np.ndarray))
            ok = ok and (set(x.keys()) == set(self.names) if isinstance(x, dict) else len(x) == len(self.names))
            if not ok:      # a constraint written for the other format fails on it
                self.consbad += 1
                raise TypeError("constraint called with a malformed point")
            if ok:
                d = self.as_dict(x)
                for v in self.V:
                    k = kind(d[v.name])
                    if v.k in ("real", "int"):
                        ok = ok and k in ("int", "float")
                    else:
                        ok = ok and v.enc(d[v.name], self.iv)["a"] > 0
                for n, w in self.fixnow.items():
                    ok = ok and canon(d[n]) == canon(w)
            if not ok:
                self.consbad += 1
            return f(self.as_dict(x), self.V)

        return fun

    # ---- construction
    def build(self, seed=True, shared=None):
        sc, shared = self.sc, shared or {}
        import bayes_optim
        from bayes_optim.surrogate import GaussianProcess, RandomForest, trend
        sp = shared["space"] if "space" in shared else build_space(self.V)
        if sc.get("model", "stub") == "rf":
            model = RandomForest(levels=sp.levels, n_estimators=10, random_state=sc["seed"])
        elif sc["model"] == "gp":
            d = len(self.V)
            b = np.array([v.a["b"] for v in self.V], dtype=float)
            model = GaussianProcess(mean=trend.constant_trend(d), corr="matern",
                                    thetaL=1e-3 * (b[:, 1] - b[:, 0]), thetaU=1e3 * (b[:, 1] - b[:, 0]),
                                    nugget=1e-6, noise_estim=False, optimizer="BFGS", wait_iter=1,
                                    random_start=2, likelihood="concentrated", eval_budget=20 * d,
                                    random_state=sc["seed"])
        elif sc["model"] == "gstub":
            model = GStub(salt=sc["seed"], nobj=self.nobj, corner=sc.get("corner"))
        else:
            model = Stub(salt=sc["seed"], nobj=self.nobj, corner=sc.get("corner"))
        kw = dict(search_space=sp, model=model, DoE_size=sc["doe"], eval_type=self.fmt,
                  max_FEs=sc["budget"] or None,
                  acquisition_optimization=dict(max_FEs=sc.get("aqfe", 30), n_restart=sc.get("aqr", 2)))
        if "aqopt" in shared:
            kw["acquisition_optimization"] = shared["aqopt"]
        if sc.get("optimizer"):
            kw["acquisition_optimization"]["optimizer"] = sc["optimizer"]
        self.aqopt = kw["acquisition_optimization"]
        self.aqopt0 = copy.deepcopy(self.aqopt)
        if sc["cls"] != "MOBO":
            kw["minimize"] = sc["min"][0]
        else:
            # one direction for all objectives may be given as a single flag
            kw["minimize"] = sc["min"][0] if len(set(sc["min"])) == 1 and sc["seed"] % 3 else list(sc["min"])
            kw["n_obj"] = self.nobj
        if sc["npt"] > 0:
            kw["n_point"] = sc["npt"]
        if sc.get("acq"):
            kw["acquisition_fun"] = sc["acq"]
        if sc.get("acq_par") is not None:
            self.acq_par = shared["acq_par"] if "acq_par" in shared else dict(sc["acq_par"])
            kw["acquisition_par"] = self.acq_par
        if sc.get("target", None) is not None:
            kw["ftarget"] = self.codes.val(sc["target"])
        if self.csv:
            kw["data_file"] = self.csv
        h, g = self.cons_fun(0), self.cons_fun(1)
        if h:
            kw["eq_fun"] = h
        if g:
            kw["ineq_fun"] = g
        if seed and sc.get("seeded", True):
            kw["random_seed"] = sc["seed"]
        kw.update(sc.get("extra", {}))
        if sc.get("njob"):
            kw["n_job"] = sc["njob"]
        if sc["cls"] == "MOBO":
            kw["obj_fun"] = [lambda x, k=k: self.objective(x, k) for k in range(self.nobj)]
        else:
            kw["obj_fun"] = self.objective
            if sc.get("pof"):
                kw["parallel_obj_fun"] = self.batch_objective
                if sc["seed"] % 2:       # the batch objective alone suffices
                    kw["obj_fun"] = None
        self.warm_in = None
        if sc.get("warm"):
            X, y = self.warm_points(sc["warm"])
            self.warm_in = (X, y)
            self.warm_copy = copy.deepcopy(self.warm_in)
            self.warm_attr = sol_attr(X)
            kw["warm_data"] = (X, y)
        return import_cls(sc["cls"])(**kw)

    def draw_point(self, rng):
        return [v.draw(rng, extreme=rng.random() < 0.15) for v in self.V]

    def obj_array(self, X):
        a = np.empty((len(X), len(self.names)), dtype=object)
        for i, x in enumerate(X):
            for j, v in enumerate(x):
                a[i, j] = v
        return a

    def warm_points(self, w):
        rng = random.Random(self.sc["seed"] + 99)
        ys = w["ys"]
        X = []
        while len(X) < len(ys):
            x = self.draw_point(rng)
            X.append(x)
        self.warm_ids = [self.pid(x) for x in X]
        self.warm_ys = [self.ycodes(c) for c in ys]
        y = [self.yval(c) for c in ys]
        if w["form"] == "sol":
            from bayes_optim import Solution
            return Solution(X, var_name=self.names, n_obj=self.nobj), y
        if self.fmt == "dict":
            ds = [dict(zip(self.names, x)) for x in X]
            if w["form"] == "shuf":
                ds = [self.shuffle_keys(d) for d in ds]
            return ds, y
        if w["form"] == "arr":
            return self.obj_array(X), np.array(y)
        return X, y

    def ycodes(self, c):
        """code(s) of an observation: multi-objective values are derived from one code"""
        if self.nobj == 1:
            return [c]
        if c >= 1000000:
            return [c if k == 0 else 1 for k in range(self.nobj)]
        # a fixed table spreads codes over the plane with ties and dominated points
        return [[c, (3 * c * c + 5 * c) % 7 - 3, (c * c) % 5 - 2][k] for k in range(self.nobj)]

    def yval(self, c):
        cs = self.ycodes(c)
        vs = [self.codes.val(x) for x in cs]
        return vs[0] if self.nobj == 1 else vs

    def shuffle_keys(self, d):
        ks = list(d)
        self.rng.shuffle(ks)
        if len(ks) > 1 and ks == list(d):
            ks = ks[::-1]
        return {k: d[k] for k in ks}

    # ---- objective for step / run
    def objective(self, x, k=0):
        """objective function; under a schedule (parallel evaluation) the calls finish in the
        generated order"""
        with self.lock:
            lvl = (int(self.o.eval_count), k)
            self.arrived[lvl] = a = self.arrived.get(lvl, 0) + 1
        if self.order and threading.current_thread() is not threading.main_thread():
            n = self.asked[-1] if self.asked else len(self.order)
            before = []
            for j in self.order:
                if j == a:
                    break
                if j <= n:
                    before.append(j)
            end = time.time() + 1.5
            with self.cond:
                while time.time() < end and not self.aborted and \
                        not all((lvl, j) in self.finished for j in before):
                    self.cond.wait(0.05)
        try:
            with self.lock:
                return self._objective(x, k)
        except ZeroDivisionError:
            self.aborted = True
            raise
        finally:
            with self.cond:
                self.finished.append((lvl, a))
                self.cond.notify_all()

    def batch_objective(self, X):
        """a user-supplied batch objective: evaluates in its own order, answers in the given one"""
        idx = list(range(len(X)))
        if self.order:
            idx.sort(key=lambda i: self.order.index(i + 1) if i + 1 in self.order else 99)
        if not isinstance(X, list):
            self.pofbad = True
        out = [None] * len(X)
        for i in idx:
            out[i] = self._objective(X[i])
        return out

    def _objective(self, x, k=0):
        i = self.pid(x)
        ok = isinstance(x, dict) if self.fmt == "dict" else isinstance(x, list)
        ys = self.runys
        if k == 0:
            self.calln += 1
        c = ys[(i - 1 + self.sc["seed"]) % len(ys)] if self.ymode == "bypoint" else ys[(self.calln - 1) % len(ys)]
        self.calls.append(dict(p=i, k=k, fmt=bool(ok), it=int(self.o.iter_count), ev=int(self.o.eval_count)))
        if self.raise_at and len(self.calls) >= self.raise_at:
            raise ZeroDivisionError("objective")
        v = self.yval(c)
        return v if self.nobj == 1 else v[k]

    # ---- projection of the state
    def hist(self, o):
        if not hasattr(o, "data"):
            return []
        d = o.data
        fit = np.asarray(d.fitness, dtype=float).reshape(len(d), -1)
        nm = [str(x) for x in d.var_name]
        rows = np.asarray(d, dtype=object).tolist()
        out = []
        for i, r in enumerate(rows):
            p = self.pid(dict(zip(nm, r))) if set(nm) == set(self.names) else 0
            out.append(dict(p=p, y=[self.codes.code(v) for v in fit[i]], n=int(d.n_eval[i])))
        return out

    def csvrows(self):
        if not self.csv or not os.path.exists(self.csv):
            return []
        rows = []
        with open(self.csv) as f:
            text = f.read()
        if not text.startswith(self.pre):
            return [dict(p=0, y=[UNKNOWN] * self.nobj, n=-1)]
        lines = text[len(self.pre):].split("\n")
        tail = lines.pop() if lines else ""
        # a point is recognised by the text of its values
        txt = {}
        if hasattr(self.o, "data"):
            for r in np.asarray(self.o.data, dtype=object).tolist():
                txt.setdefault(",".join(str(v) for v in r), self.pid(r))
        for ln in lines:
            f = self.parse_csv(ln, txt)
            rows.append(f)
        if tail:
            rows.append(dict(p=0, y=[UNKNOWN] * self.nobj, n=-1))
        return rows

    def parse_csv(self, ln, txt):
        # index, values..., n_eval, fitness...
        parts = ln.split(",")
        ys = parts[len(parts) - self.nobj:]
        ne = parts[len(parts) - self.nobj - 1] if len(parts) > self.nobj + 1 else ""
        mid = ",".join(parts[1:len(parts) - self.nobj - 1])
        try:
            y = [self.codes.code(float(v)) for v in ys]
        except ValueError:
            y = [UNKNOWN] * self.nobj
        try:
            n = int(ne)
        except ValueError:
            n = -1
        return dict(p=txt.get(mid, 0), y=y, n=n)

    def ranks(self, col):
        u = sorted(set(col))
        return [u.index(v) + 1 for v in col]

    def snap(self, o=None):
        try:
            return self._snap(o or self.o)
        except JobTimeout:
            raise
        except Exception:
            # the projection itself fails: a state no specification admits
            return dict(hist=[dict(p=0, y=[UNKNOWN] * self.nobj, n=-1)], evals=-1, iters=-1, names=False,
                        fitted=False, histf=[], fitp=[], fity=[], nfit=-2, fitm=[], csv=[], stop=dict(fe=-2, ft=UNKNOWN, n=-1),
                        best=[], aqpar=True, aqopt=True)

    def moments(self, o, y):
        """mean, deviation, least and greatest fitted value (1e-4) of every objective that is not (nearly) constant"""
        Y, F = np.asarray(y, dtype=float), np.asarray(o.data.fitness, dtype=float).reshape(len(o.data), -1)
        q = lambda v: clamp(round(float(v) * 1e4)) if math.isfinite(v) else BIG
        ok = Y.ndim == 2 and F.shape == Y.shape
        return [[q(c.mean()), q(c.std()), q(c.min()), q(c.max())] if ok and F[:, j].std() > 1e-6 * (1 + np.abs(F[:, j]).max()) else []
                for j, c in enumerate(Y.T)]

    def _snap(self, o):
        m = o.model
        s = dict(hist=self.hist(o), evals=int(o.eval_count), iters=int(o.iter_count),
                 names=bool(not hasattr(o, "data") or [str(x) for x in o.data.var_name] == self.names),
                 fitted=bool(m.is_fitted))
        hf = []
        for f in o.hist_f:
            a = np.asarray(f, dtype=float)
            if self.nobj == 1:
                hf.append([[self.codes.code(v) for v in a.ravel()]])
            else:
                hf.append([[self.codes.code(v) for v in r] for r in a.reshape(-1, self.nobj)])
        s["histf"] = hf
        if isinstance(m, Stub):
            if m.fits:
                X, y = m.fits[-1]
                s["fitp"] = [self.pid(r) for r in X]
                cols = [self.ranks(c) for c in zip(*y)]
                s["fity"] = [list(r) for r in zip(*cols)]
                s["fitm"] = self.moments(o, y)
            else:
                s["fitp"], s["fity"], s["fitm"] = [], [], []
            s["nfit"] = len(m.fits)
        else:
            s["fitp"], s["fity"], s["fitm"], s["nfit"] = [], [], [], -1
        s["csv"] = self.csvrows()
        st = {k: v for k, v in o.stop_dict.items()}
        s["stop"] = dict(fe=clamp(int(st["max_FEs"])) if "max_FEs" in st else -1,
                         ft=self.codes.code(np.ravel(st["ftarget"])[0]) if "ftarget" in st else UNKNOWN,
                         n=len(st))
        try:
            x = o.xopt
            s["best"] = self.solution(x)
        except Exception as e:
            s["best"] = [dict(p=0, y=[UNKNOWN] * self.nobj)]
        s["aqpar"] = bool(getattr(self, "acq_par", None) is None or self.acq_par == self.sc["acq_par"])
        s["aqopt"] = bool(self.aqopt == self.aqopt0)
        return s

    def solution(self, x):
        if x is None:
            return []
        f = np.asarray(x.fitness, dtype=float)
        if len(x.shape) == 1:
            nm = [str(v) for v in x.var_name]
            return [dict(p=self.pid(dict(zip(nm, list(np.asarray(x, dtype=object))))) if set(nm) == set(self.names) else 0,
                         y=[self.codes.code(v) for v in f.ravel()])]
        nm = [str(v) for v in x.var_name]
        return [dict(p=self.pid(dict(zip(nm, r))), y=[self.codes.code(v) for v in f.reshape(len(x), -1)[i]])
                for i, r in enumerate(np.asarray(x, dtype=object).tolist())]

    # ---- operations
    def near_pairs(self, X):
        """pairs of points that coincide up to floating-point closeness"""
        out = []

        def same(a, b):
            a, b = self.as_dict(a), self.as_dict(b)
            for v in self.V:
                if v.k == "real":
                    x, y = float(a[v.name]), float(b[v.name])
                    if abs(x - y) > 0.5 * (1e-8 + 1e-5 * min(abs(x), abs(y))):
                        return False
                elif canon(a[v.name]) != canon(b[v.name]):
                    return False
            return True

        try:
            for i in range(len(X)):
                for j in range(i + 1, len(X)):
                    if same(X[i], X[j]):
                        out.append([i + 1, j + 1])
            if hasattr(self.o, "data"):
                nm = [str(v) for v in self.o.data.var_name]
                rows = [dict(zip(nm, r)) for r in np.asarray(self.o.data, dtype=object).tolist()]
                for i in range(len(X)):
                    for j, r in enumerate(rows):
                        if same(X[i], r):
                            out.append([i + 1, 1000 + j + 1])
        except Exception:
            pass
        return out

    def fixed(self, mask):
        """a mapping that fixes the variables in the bit mask (never all of them)"""
        n = len(self.V)
        idx = [i for i in range(n) if (mask >> i) & 1]
        if len(idx) == n:
            idx = idx[:-1]
        if self.rng.random() < 0.5:
            idx = idx[::-1]
        out = {}
        for i in idx:
            v = self.V[i]
            val = v.draw(self.rng, extreme=self.rng.random() < 0.3)
            if v.k == "real" and v.a.get("precision") is not None and self.rng.random() < 0.4:
                lo, hi = v.a["b"]
                val = lo + (hi - lo) * 0.37123
            if v.k in ("int", "cat", "real") and self.rng.random() < 0.4:
                z = 0.0 if v.k == "real" else 0
                if v.k == "real" and v.a["b"][0] <= 0 <= v.a["b"][1]:
                    val = z
                if v.k == "int" and v.a["b"][0] <= 0 <= v.a["b"][1] and (0 - v.a["b"][0]) % v.a.get("step", 1) == 0:
                    val = z
            out[v.name] = val
        if self.sc.get("cons", "none") != "none":
            # keep the restricted problem feasible
            for t in range(300):
                x = {v.name: v.draw(self.rng) for v in self.V}
                x.update(out)
                g, h = self.cons_values(x)
                if all(v <= -200000 for v in g) and (all(v <= 50000 for v in h)):
                    break
            else:
                return {}
        return out

    def op_ask(self, op, ev, o=None):
        o = o or self.o
        kw = {}
        n = op.get("n", 0)
        if n:
            kw["n_point"] = n
        fixed = None
        if op.get("fix", 0):
            fixed = self.fixed(op["fix"])
            if fixed:
                kw["fixed"] = fixed
            else:
                fixed = None
        self.fixnow = dict(fixed) if fixed else {}
        f0 = copy.deepcopy(fixed)
        ev["fix"] = []
        for k, v in (fixed or {}).items():
            j = self.names.index(k)
            e = self.V[j].enc(v, self.iv)
            ev["fix"].append(dict(i=j + 1, q=e["q"], a=e["a"]))
        ev["n"] = n
        self.ncons = self.consbad = 0
        with CritRecorder(self) as cr:
            try:
                X = o.ask(**kw)
                ev["exc"] = ""
            except JobTimeout:
                X, ev["exc"] = [], "HANG"
            except Exception as e:
                X, ev["exc"] = [], exc_name(e)
        ev["crit"] = cr.out
        ev["vals"] = cr.values()
        ev["fixsame"] = bool(fixed == f0)
        ev["consbad"] = self.consbad
        self.fixnow = {}
        t = dict if self.fmt == "dict" else list
        ev["fmtok"] = bool(isinstance(X, list) and all(type(x) is t for x in X) and
                           (self.fmt == "list" or all(list(map(str, x)) == self.names or set(x) == set(self.names) for x in X)))
        X = list(X) if hasattr(X, "__iter__") else []
        ev["out"] = [self.pid(x) for x in X]
        ev["near"] = self.near_pairs(X)
        if ev["exc"] == "":
            self.last = X
        return X

    def do_tell(self, X, ys, ev, o=None, **kw):
        o = o or self.o
        codes = [ys[i % len(ys)] for i in range(len(X))]
        ev["pts"] = [self.pid(x) for x in X]
        ev["ys"] = [self.ycodes(c) for c in codes]
        y = [self.yval(c) for c in codes]
        if kw.pop("nparr", False):
            y = np.array(y)
        X0, y0 = copy.deepcopy(X), copy.deepcopy(y)
        try:
            o.tell(X, y, **kw)
            ev["exc"] = ""
        except JobTimeout:
            ev["exc"] = "HANG"
        except Exception as e:
            ev["exc"] = exc_name(e)
        try:
            same = repr(X0) == repr(X) and repr(y0) == repr(y)
        except Exception:
            same = False
        ev["insame"] = bool(same)
        if ev["exc"] != "HANG":
            scribble(X, y)

    def op_tell(self, op, ev, o=None):
        X = copy.deepcopy(self.last)
        mode = op.get("mode", "same")
        if mode == "rev":
            X = X[::-1]
        elif mode == "part":
            X = X[:1]
        elif mode == "shuf" and self.fmt == "dict":
            X = [self.shuffle_keys(d) for d in X]
        elif mode == "near":
            X = [self.nudge(x) for x in X]
        elif mode == "arr" and self.fmt == "list" and self.sc["cls"] not in ("ConditionalBO", "PCABO"):
            X = self.obj_array(X)
        self.do_tell(X, op["ys"], ev, o, nparr=mode == "arr")

    def nudge(self, x):
        """the point as it reads back from a file of limited accuracy"""
        x = dict(x) if isinstance(x, dict) else list(x)
        for j, v in enumerate(self.V):
            if v.k == "real":
                k = v.name if isinstance(x, dict) else j
                lo = v.a["b"][0]
                d = 1e-9 * min(1.0, max(abs(x[k]), 0.1))
                x[k] = x[k] - d if x[k] - d >= lo else x[k] + d
        return x

    def op_tellf(self, op, ev, o=None):
        """points the optimizer never suggested; mode dup repeats observed points,
        corner uses corner points"""
        X = []
        for i in range(op["k"]):
            if op.get("mode") == "dup" and hasattr(self.o, "data") and len(self.o.data):
                nm = [str(v) for v in self.o.data.var_name]
                r = np.asarray(self.o.data, dtype=object).tolist()[i % len(self.o.data)]
                x = [dict(zip(nm, r))[n] for n in self.names]
            else:
                x = self.draw_point(self.rng)
            X.append(x)
        if self.fmt == "dict":
            X = [dict(zip(self.names, x)) for x in X]
            if op.get("mode") == "shuf":
                X = [self.shuffle_keys(d) for d in X]
        self.do_tell(X, op["ys"], ev, o)

    def op_rec(self, op, ev):
        try:
            ev["out"] = self.solution(self.o.recommend())
            ev["exc"] = ""
        except JobTimeout:
            ev["out"], ev["exc"] = [], "HANG"
        except Exception as e:
            ev["out"], ev["exc"] = [], exc_name(e)

    def op_stop(self, op, ev):
        try:
            r = self.o.check_stop()
            ev["res"] = bool(r)
            ev["exc"] = ""
        except Exception as e:
            ev["res"], ev["exc"] = False, exc_name(e)

    def op_step(self, op, ev, run=False):
        self.calls, self.calln = [], 0
        self.runys = op["ys"]
        self.ymode = op.get("ymode", "bycall")
        self.raise_at = op.get("raise", 0)
        self.order = op.get("order", [])
        self.arrived, self.finished, self.aborted, self.asked = {}, [], False, []
        ev["ret"] = []
        orig = self.o.ask

        def ask(*a, **k):
            X = orig(*a, **k)
            self.asked.append(len(X))
            return X

        par = nullcontext()
        if self.sc.get("njob", 1) > 1:
            from joblib import parallel_backend
            par = parallel_backend("threading")
            self.o.ask = ask
        try:
          with par:
            if run:
                r = self.o.run()
                x, f, sd = r
                ev["ret"] = [dict(p=self.pid(x) if self.nobj == 1 else 0,
                                  y=[self.codes.code(v) for v in np.ravel(f)][: self.nobj],
                                  same=bool(sd == self.o.stop_dict))]
            else:
                self.o.step()
            ev["exc"] = ""
        except JobTimeout:
            ev["exc"] = "HANG"
        except Exception as e:
            ev["exc"] = exc_name(e)
        self.aborted = True
        self.o.__dict__.pop("ask", None)
        with self.lock:
            cl = list(self.calls)
        ev["calls"] = [dict(p=c["p"], k=c["k"] + 1, fmt=c["fmt"], it=c["it"], ev=c["ev"]) for c in cl]
        # the value each call returned, in order of the first objective
        n = 0
        ys = []
        for c in cl:
            if c["k"] == 0:
                n += 1
                code = self.runys[(c["p"] - 1 + self.sc["seed"]) % len(self.runys)] if self.ymode == "bypoint" \
                    else self.runys[(n - 1) % len(self.runys)]
                ys.append(self.ycodes(code))
        ev["ys"] = ys
        ev["raised"] = bool(self.raise_at and len(cl) >= self.raise_at)

    def op_run(self, op, ev):
        self.op_step(op, ev, run=True)

    def op_save(self, op, ev):
        """save and go on with the running optimizer"""
        f = os.path.join(self.dir, "ck", "a.dump") if self.sc["seed"] % 2 else os.path.join(self.dir, "ck", "1", "2", "a.dump")
        try:
            self.o.save(f)
            ev["exc"] = ""
        except Exception as e:
            ev["exc"] = exc_name(e)
        self.ckpt = f
        self.ckpt_snap = self.snap()

    def op_load(self, op, ev):
        """go on with the optimizer restored from the last checkpoint"""
        f = os.path.join(self.dir, "b.dump")
        try:
            self.o.save(f)
            self.o = type(self.o).load(f)
            self.rebind(self.o)
            ev["exc"] = ""
        except Exception as e:
            ev["exc"] = exc_name(e)

    def rebind(self, o):
        """the restored objective function is a copy bound to a copy of this driver: let it
        talk to this driver again (its presence after loading is checked)"""
        if self.sc["cls"] == "MOBO":
            assert len(o.obj_fun) == self.nobj
            o.obj_fun = [lambda x, k=k: self.objective(x, k) for k in range(self.nobj)]
        else:
            if not (self.sc.get("pof") and self.sc["seed"] % 2):
                assert callable(o.obj_fun)
                o.obj_fun = self.objective
            if self.sc.get("pof"):
                assert callable(o.parallel_obj_fun)
                o.parallel_obj_fun = self.batch_objective
        return o

    def op_slcmp(self, op, ev):
        """save, load, and compare the next suggestions and reactions of both"""
        f = os.path.join(self.dir, "c.dump")
        ev.update(a=[], b=[], sa=self.snap(), sb={}, exc="")
        try:
            self.o.save(f)
            s1 = self.snap()
            p = self.rebind(type(self.o).load(f))
            q = self.rebind(type(self.o).load(f))
            ev["sa"], ev["sb"] = s1, self.snap(p)
            st = np.random.get_state()
            seed = self.sc["seed"] + 5
            np.random.seed(seed)
            ra = self.try_ask(self.o, op)
            np.random.seed(seed)
            rb = self.try_ask(p, op)
            ev["a"], ev["b"] = ra[0], rb[0]
            ev["xa"], ev["xb"] = ra[1], rb[1]
            # further reports are answered identically
            if ra[1] == "" and rb[1] == "" and ra[2] and op.get("ys"):
                ya, yb = {}, {}
                np.random.seed(seed)
                self.do_tell(copy.deepcopy(ra[2]), op["ys"], ya, p)
                pa = self.snap(p)
                np.random.seed(seed)
                self.do_tell(copy.deepcopy(ra[2]), op["ys"], yb, q)
                qa = self.snap(q)
                ev["pa"], ev["qa"] = pa, qa
                ev["told"] = dict(pts=ya["pts"], ys=ya["ys"], exc=ya["exc"])
                self.o = q if op.get("go") else self.o
                ev["moved"] = bool(op.get("go"))
            else:
                ev["moved"] = False
            np.random.set_state(st)
        except JobTimeout:
            ev["exc"] = "HANG"
        except Exception as e:
            ev["exc"] = exc_name(e)
        ev.setdefault("xa", "")
        ev.setdefault("xb", "")
        ev.setdefault("moved", False)
        ev.setdefault("told", dict(pts=[], ys=[], exc="none"))
        ev.setdefault("pa", ev["sa"])
        ev.setdefault("qa", ev["sa"])

    def try_ask(self, o, op):
        kw = {"n_point": op["n"]} if op.get("n") else {}
        try:
            X = o.ask(**kw)
            return [self.pid(x) for x in X], "", X
        except JobTimeout:
            raise
        except Exception as e:
            return [], exc_name(e), []

    def op_savefail(self, op, ev):
        """a save that cannot succeed: the object holds something unpicklable, or the
        target cannot be written; an earlier checkpoint exists at the same place"""
        f = os.path.join(self.dir, "d.dump")
        ev["first"] = ""
        try:
            self.o.save(f)
        except Exception as e:
            ev["first"] = exc_name(e)
        before = open(f, "rb").read() if os.path.isfile(f) else b""
        ls0 = sorted(os.listdir(self.dir))
        s0 = self.snap()
        if op.get("how", "pickle") == "pickle":
            self.o.unpicklable = (i for i in range(3))
            target = f
        elif op["how"] == "full":
            target = f
        else:
            target = os.path.join(f, "x.dump")      # a file is in the way
        import resource
        lim = resource.getrlimit(resource.RLIMIT_FSIZE)
        sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        try:
            if op.get("how") == "full":             # the device is full after half of the file
                resource.setrlimit(resource.RLIMIT_FSIZE, (max(1, len(before) // 2), lim[1]))
            try:
                self.o.save(target)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, lim)
                signal.signal(signal.SIGXFSZ, sig)
            ev["exc"] = ""
        except JobTimeout:
            ev["exc"] = "HANG"
        except Exception as e:
            ev["exc"] = exc_name(e)
        self.o.__dict__.pop("unpicklable", None)
        after = open(f, "rb").read() if os.path.isfile(f) else b""
        ev["intact"] = bool(before == after and len(before) > 0)
        ev["datatype"] = bool(not hasattr(self.o, "data") or type(self.o.data).__name__ == "Solution")
        import logging
        ev["logger"] = bool(isinstance(self.o.logger, logging.Logger))
        # the earlier checkpoint can still be loaded
        try:
            p = type(self.o).load(f)
            ev["sb"] = self.snap(p)
        except Exception as e:
            ev["sb"] = dict(s0, evals=-1)
        ev["sa"] = s0

    def run(self):
        sc = self.sc
        random.seed(sc["seed"])
        np.random.seed(sc["seed"] % (2**31))
        evs = []
        ev = dict(op="init")
        try:
            self.o = self.build()
            ev["exc"] = ""
        except JobTimeout:
            ev["exc"] = "HANG"
        except Exception as e:
            ev["exc"] = exc_name(e)
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc()
        if sc.get("warm") and getattr(self, "warm_in", None):
            ev["pts"], ev["ys"] = self.warm_ids, self.warm_ys
            a, b = self.warm_copy, self.warm_in
            rows = lambda X: repr(X.tolist() if isinstance(X, np.ndarray) else X)
            ev["insame"] = bool(repr(a[1]) == repr(b[1]) and
                                rows(a[0]) == rows(b[0]) and self.warm_attr == sol_attr(b[0]))
            scribble(*b)
        else:
            ev["pts"], ev["ys"], ev["insame"] = [], [], True
        if ev["exc"]:
            ev["st"] = dict(hist=[], evals=0, iters=0, histf=[])
            evs.append(ev)
        else:
            ev["st"] = self.snap()
            evs.append(ev)
            for op in sc["ops"]:
                if op["op"] == "tell" and self.last is None:
                    continue
                ev = dict(op=op["op"])
                getattr(self, "op_" + op["op"])(op, ev)
                ev["st"] = self.snap()
                evs.append(ev)
                if op["op"] == "tell":
                    self.last = None
                if ev.get("exc") == "HANG":
                    break
        shutil.rmtree(self.dir, ignore_errors=True)
        return dict(tid=sc["tid"], key=sc["key"], scenario={k: v for k, v in sc.items() if k not in ("tid", "key")},
                    cfg=dict(cls=sc["cls"], noisy=sc["cls"] == "NoisyBO", min=list(sc["min"]), nobj=self.nobj,
                             doe=sc["doe"], npt=self.eff_npt(), budget=sc["budget"],
                             target=sc["target"] if sc.get("target") is not None else UNKNOWN,
                             csv=bool(self.csv), stub=sc.get("model", "stub") in ("stub", "gstub"),
                             warm=bool(sc.get("warm")), cons=sc.get("cons", "none") != "none",
                             crit=sc.get("critx", dict(on=False))),
                    space=[v.desc() for v in self.V], pts=self.pts, ev=evs)

    def eff_npt(self):
        n = self.sc["npt"]
        if n:
            return n
        return 1 if self.sc["cls"] in ("BO", "MOBO") else 3


def sol_attr(X):
    """what a Solution carries besides its points"""
    return repr([np.asarray(getattr(X, k, None)).tolist() for k in ("fitness", "n_eval", "index", "var_name")])


def scribble(X, y):
    """the caller goes on using the objects it has reported: the history must not
    change with them"""
    try:
        if isinstance(X, np.ndarray):
            X[...] = None
        else:
            for x in X:
                if isinstance(x, dict):
                    for k in x:
                        x[k] = None
                elif isinstance(x, list):
                    x[:] = [None] * len(x)
        if isinstance(y, np.ndarray):
            y[...] = 12345.678
        elif isinstance(y, list):
            y[:] = [12345.678] * len(y)
    except (TypeError, ValueError):
        pass


class CritRecorder:
    """records the criteria built while suggestions are computed"""

    def __init__(self, sess):
        self.s = sess
        self.out, self.vals, self.unpatch = [], [], None

    def __enter__(self):
        from bayes_optim.acquisition import acquisition_fun as A
        self.saved = []
        self.depth = 0
        if not self.s.sc.get("critx", {}).get("on"):
            return self
        for name in ("EI", "UCB", "PI", "EpsilonPI", "MGFI"):
            cls = getattr(A, name)
            had = "__init__" in cls.__dict__
            orig = cls.__init__
            self.saved.append((cls, had, orig))

            def init(this, *a, _orig=orig, **k):
                self.depth += 1
                try:
                    _orig(this, *a, **k)
                finally:
                    self.depth -= 1
                if self.depth == 0:
                    self.record(this)

            cls.__init__ = init
        # the values the searches reached (ranks), where the search can be observed
        import bayes_optim.base as bb
        self.vals = []
        if callable(getattr(bb, "argmax_restart", None)):
            orig_search = bb.argmax_restart

            def search(*a, **k):
                x, v = orig_search(*a, **k)
                self.vals.append(float(v) if len(x) else -math.inf)
                return x, v

            bb.argmax_restart = search
            self.unpatch = lambda: setattr(bb, "argmax_restart", orig_search)
        return self

    def values(self):
        u = sorted(set(self.vals))
        return [u.index(v) for v in self.vals]

    def record(self, c):
        m = c.model
        plug = getattr(c, "plugin", None)
        rk = -1
        if isinstance(m, Stub) and m.fits:
            ys = [r[0] for r in m.fits[-1][1]]
            if self.s.sc["cls"] == "NoisyBO":
                nm = self.s.names
                ys = [float(v) for v in np.ravel(m.predict(np.asarray(self.s.o.data, dtype=object)))]
            if not self.s.sc["min"][0]:
                ys = [-v for v in ys]
            u = sorted(set(ys))
            if plug is None:
                rk = -1
            else:
                near = [i for i, v in enumerate(u) if abs(v - float(plug)) <= 1e-12 * (1 + abs(v))]
                rk = near[0] + 1 if near else 0
        par = {k: getattr(c, k) for k in ("t", "alpha", "epsilon") if hasattr(c, k)}
        f = lambda v: clamp(round(float(v) * 1e6))
        self.out.append(dict(cls=type(c).__name__, mn=bool(np.all(c.minimize)), plug=rk,
                             t=f(par.get("t", 0)), alpha=f(par.get("alpha", 0)), eps=f(par.get("epsilon", 0)),
                             model=bool(m is self.s.o.model)))

    def __exit__(self, *a):
        if self.unpatch:
            self.unpatch()
            self.s.o.__dict__.pop("_argmax_restart", None)      # refers to the observer
        for cls, had, orig in self.saved:
            if had:
                cls.__init__ = orig
            else:
                del cls.__init__
        return False


if __name__ == "__main__":
    common.main(lambda sc: Session(sc).run())
