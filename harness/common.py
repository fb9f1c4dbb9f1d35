"""Shared pieces of the drivers.  The drivers execute generated behaviours on the real
code and record observations; they never judge them."""
import copy
import json
import math
import numbers
import os
import random
import signal
import threading
import sys
import traceback
import warnings
from fractions import Fraction

import numpy as np

NAN, PINF, NINF, UNKNOWN = 1000001, 1000002, 1000003, 999999
BIG = 2_000_000_000


class JobTimeout(BaseException):
    """not an Exception, so that the code under test does not handle it"""


def _alarm(*_):
    raise JobTimeout()


def cover():
    """with VERIF_COV=<dir>, record which lines of the code under test are executed (tools/cover.py)"""
    d = os.environ.get("VERIF_COV")
    if not d:
        return lambda: None
    m, hit = sys.monitoring, set()
    m.use_tool_id(m.COVERAGE_ID, "cover")

    def line(code, n):
        if "/bayes_optim/" in code.co_filename:
            hit.add((code.co_filename.split("/bayes_optim/", 1)[1], n))
        return m.DISABLE

    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)

    def dump():
        with open(os.path.join(d, f"{os.path.basename(sys.argv[0])}.{os.getpid()}"), "w") as f:
            json.dump(sorted(hit), f)

    return dump


def main(run_job):
    """Worker entry: python <script>.py in.json out.json"""
    warnings.filterwarnings("ignore")
    # the driver runs joblib's workers as threads; the list of warning filters is shared between
    # threads, and concurrent `catch_warnings` blocks would leave each other's "error" filters behind
    main_only = warnings.filterwarnings
    warnings.filterwarnings = lambda *a, **k: \
        main_only(*a, **k) if threading.current_thread() is threading.main_thread() else None
    dump = cover()
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    limit = int(os.environ.get("VERIF_JOB_TIMEOUT", "90"))
    signal.signal(signal.SIGALRM, _alarm)
    out = []
    for job in jobs:
        signal.alarm(limit)
        try:
            out.append(run_job(job))
        except (Exception, JobTimeout) as e:
            signal.alarm(0)
            tb = traceback.format_exc()
            import bayes_optim
            home = os.path.dirname(os.path.abspath(bayes_optim.__file__))
            if not any(f.filename.startswith(home) for f in traceback.extract_tb(e.__traceback__)):
                sys.stderr.write("job failed in the driver: " + json.dumps(job)[:2000] + "\n" + tb)
                sys.exit(3)
            out.append(dict(_crash=tb[-3000:]))
            break
        finally:
            signal.alarm(0)
    out += [None] * (len(jobs) - len(out))
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)
    dump()
    sys.stdout.flush()
    os._exit(0)


# ------------------------------------------------------------------ value encodings
def kind(v):
    if v is None:
        return "none"
    if isinstance(v, (bool, np.bool_)):
        return "bool"
    if isinstance(v, numbers.Integral):
        return "int"
    if isinstance(v, numbers.Real):
        return "nan" if not math.isfinite(float(v)) else "float"
    if isinstance(v, str):
        return "str"
    if isinstance(v, tuple):
        return "tuple"
    return "other"


def canon(v):
    """canonical, hashable, type-aware form of a value"""
    k = kind(v)
    if k in ("int", "float"):
        # 3 and 3.0 are the same number: the kind is recorded separately
        f = float(v)
        return ("num", f if f != int(f) or abs(f) > 2**53 else int(f)) if math.isfinite(f) else ("nan", repr(f))
    if k == "bool":
        return ("bool", bool(v))
    if k == "tuple":
        return ("tuple", tuple(canon(x) for x in v))
    if k == "str":
        return ("str", str(v))
    return (k, repr(v))


def clamp(n):
    return int(max(-BIG, min(BIG, n)))


def grid(v, unit):
    """(floor(v/unit), exact?) with decimal units: a float that is the nearest double of
    k*unit counts as exactly k units."""
    v = float(v)
    if not math.isfinite(v):
        return BIG, 1
    u = Fraction(unit)
    q = Fraction(v) / u
    k = round(q)
    if float(k * u) == v:
        return clamp(k), 0
    return clamp(math.floor(q)), 1


class Interner:
    def __init__(self):
        self.d = {}

    def __call__(self, key):
        if key not in self.d:
            self.d[key] = len(self.d) + 1
        return self.d[key]


# --------------------------------------------------------------------- search spaces
class Var:
    """Declaration of one variable: how to build it, how to describe it to the
    specification, how to draw admissible values (independently of the code)."""

    def __init__(self, k, name, **a):
        self.k, self.name, self.a = k, name, a

    def build(self):
        from bayes_optim.search_space.variable import Bool, Discrete, Integer, Ordinal, Real, Subset
        a = self.a
        dv = {"default_value": a["default"]} if a.get("default") is not None else {}
        cond = {"conditions": a["cond"]} if a.get("cond") else {}
        if self.k == "real":
            return Real(list(a["b"]), name=self.name, precision=a.get("precision"),
                        scale=a.get("scale", "linear"), **dv, **cond)
        if self.k == "int":
            return Integer(list(a["b"]), name=self.name, step=a.get("step", 1), **dv, **cond)
        if self.k == "cat":
            return Discrete(list(a["b"]), name=self.name, **dv, **cond)
        if self.k == "ord":
            return Ordinal(list(a["b"]), name=self.name, **dv, **cond)
        if self.k == "bool":
            return Bool(name=self.name, **dv, **cond)
        if self.k == "subset":
            return Subset(list(a["b"]), name=self.name, **dv, **cond)
        raise ValueError(self.k)

    @property
    def unit(self):
        return self.a.get("unit", "1/1000000")

    def levels(self):
        if self.k == "bool":
            return [False, True]
        if self.k == "subset":
            b = self.a["b"]
            from itertools import combinations
            return [c for r in range(1, len(b) + 1) for c in combinations(b, r)]
        return list(self.a["b"])

    def desc(self):
        a = self.a
        if self.k == "real":
            lo, l0 = grid(a["b"][0], self.unit)
            hi, h0 = grid(a["b"][1], self.unit)
            assert l0 == 0 and h0 == 0, (self.name, a)
            pr = 0
            if a.get("precision") is not None:
                pr = Fraction(1, 10 ** a["precision"]) / Fraction(self.unit)
                assert pr.denominator == 1
                pr = int(pr)
            return dict(k="real", lo=lo, hi=hi, st=1, pr=pr, nl=0)
        if self.k == "int":
            return dict(k="int", lo=a["b"][0], hi=a["b"][1], st=a.get("step", 1), pr=0, nl=0)
        return dict(k=self.k, lo=0, hi=0, st=1, pr=0, nl=len(self.levels()))

    def enc(self, v, intern):
        k = kind(v)
        q = intern(("v", canon(v)))
        if self.k == "real":
            if k in ("int", "float"):
                a, b = grid(v, self.unit)
                return dict(t=k, a=a, b=b, q=q)
            return dict(t=k, a=0, b=1, q=q)
        if self.k == "int":
            if k == "int":
                return dict(t=k, a=clamp(int(v)), b=0, q=q)
            if k == "float":
                return dict(t=k, a=clamp(math.floor(float(v))), b=int(float(v) != math.floor(float(v))), q=q)
            return dict(t=k, a=0, b=1, q=q)
        lev = 0
        for i, x in enumerate(self.levels()):
            if kind(x) == k and canon(x) == canon(v):
                lev = i + 1
        return dict(t=k, a=lev, b=0, q=q)

    def draw(self, rng, extreme=False):
        a = self.a
        if self.k == "real":
            lo, hi = a["b"]
            if extreme:
                return float(rng.choice([lo, hi]))
            if a.get("precision") is not None:
                s = 10 ** a["precision"]
                n0, n1 = math.ceil(lo * s - 1e-9), math.floor(hi * s + 1e-9)
                return round(rng.randint(n0, n1) / s, a["precision"])
            return rng.uniform(lo, hi)
        if self.k == "int":
            lo, hi = a["b"]
            st = a.get("step", 1)
            n = (hi - lo) // st
            return lo + st * (rng.choice([0, n]) if extreme else rng.randint(0, n))
        return rng.choice(self.levels())


def build_space(vars_, **kw):
    from bayes_optim.search_space import SearchSpace
    return SearchSpace([v.build() for v in vars_], **kw)


R = lambda name, lo, hi, **a: Var("real", name, b=(float(lo), float(hi)), **a)
I = lambda name, lo, hi, **a: Var("int", name, b=(lo, hi), **a)
C = lambda name, *lev, **a: Var("cat", name, b=tuple(lev), **a)
O = lambda name, *lev, **a: Var("ord", name, b=tuple(lev), **a)
Bv = lambda name, **a: Var("bool", name, **a)
S = lambda name, *lev, **a: Var("subset", name, b=tuple(lev), **a)

SPACES = {
    # real spaces
    "real2": [R("r0", -5, 5), R("r1", -5, 5)],
    "real1": [R("x", 0, 1)],
    "prec": [R("p0", -5, 5, precision=1), R("p1", 0, 2, precision=0), R("p2", -1, 1)],
    "precoff": [R("p0", 0.05, 0.97, precision=1), R("p1", -3.456, -1.234, precision=2)],
    "scales": [R("l", 0.001, 100, scale="log10"), R("e", 0.5, 8, scale="log"), R("t", 0.1, 0.9, scale="logit"),
               R("b", -20, 50, scale="bilog")],
    "scalesp": [R("l", 0.01, 90, scale="log10", precision=2), R("b", -20, 50, scale="bilog", precision=1)],
    "asym": [R("u", 2, 3), R("v", -100, -99), R("w", 0, 1000)],
    # discrete spaces
    "int2": [I("i", 0, 3), I("j", -2, 2)],
    "intstep": [I("i", 1, 11, step=3), I("j", -7, 8, step=4), I("k", 0, 10, step=5)],
    "fin6": [I("i", 0, 2), Bv("b")],
    "fin4": [C("d", "A", "B"), Bv("b")],
    "cat5": [C("d", "a", "b", "c", "d", "e")],
    "ord": [O("o", 10, 20, 30, 40), O("q", "lo", "mid", "hi")],
    # mixed spaces
    "mix": [R("r", -5, 5), I("i", 1, 11, step=3), C("d", "A", "B", "C"), Bv("b"), O("o", 10, 20, 30)],
    "mix2": [I("i", -3, 3), C("m", 1, "1", 2.5), S("s", "a", "b", "c"),
             R("r", 0, 10, precision=2)],
    "mix3": [Bv("b"), R("r", 0.05, 0.95, precision=1), C("d", "x", "y"), R("z", 1, 1000, scale="log")],
    "mixr": [C("d", "A", "B"), R("r0", -5, 5), R("r1", -5, 5)],
    "zero": [I("i", 0, 4), C("c", 0, 1, 2), Bv("b"), R("r", 0, 4)],
    "subs": [S("s", 1, 2, 3), R("r", 0, 1)],
}


def space_desc(name):
    return [v.desc() for v in SPACES[name]]


# --------------------------------------------------------------------------- stubs
class Stub:
    """Deterministic surrogate with the interface of the real ones.  The prediction is a
    smooth pseudo-random function of the point; every call of `fit` is recorded."""

    def __init__(self, salt=1, nobj=1, sd=1.0, corner=None):
        self.is_fitted = False
        self.salt, self.nobj, self.sd, self.corner = salt, nobj, sd, corner
        self.fits = []

    def fit(self, X, y):
        self.fits.append(([list(r) for r in np.asarray(X, dtype=object).tolist()],
                          np.asarray(y, dtype=float).reshape(len(X), -1).tolist()))
        self.is_fitted = True
        return self

    def _num(self, v):
        k = kind(v)
        if k in ("int", "float"):
            return float(v)
        if k == "bool":
            return float(bool(v))
        return float(sum(ord(c) for c in repr(canon(v))) % 11)

    def _f(self, row, k):
        s = 0.0
        for i, v in enumerate(row):
            x = self._num(v)
            if self.corner is not None:
                s += self.corner * x
            else:
                s += math.sin(0.37 * (i + 1) * x + self.salt + 1.7 * k) / (i + 1)
        return math.tanh(s / 3.0) if self.corner is not None else s

    def predict(self, X, eval_MSE=False):
        X = np.asarray(X, dtype=object)
        if X.ndim == 1:
            X = X.reshape(1, -1)
        m = np.array([[self._f(r, k) for k in range(self.nobj)] for r in X.tolist()], dtype=float)
        if self.nobj == 1:
            m = m.ravel()
        return (m, np.full(m.shape, self.sd)) if eval_MSE else m

    def clone(self):
        return copy.deepcopy(self)


class GStub(Stub):
    """Stub with gradients, which makes the optimizer choose the gradient-based search."""

    def gradient(self, X):
        X = np.asarray(X, dtype=float).reshape(1, -1)
        d = 1e-6
        g = []
        for i in range(X.shape[1]):
            a, b = X.copy(), X.copy()
            a[0, i] += d
            b[0, i] -= d
            g.append((float(self.predict(a)[0]) - float(self.predict(b)[0])) / (2 * d))
        g = np.array(g).reshape(1, -1)
        return g, np.zeros_like(g)


def exc_name(e):
    return type(e).__name__
