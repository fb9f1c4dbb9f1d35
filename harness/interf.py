"""Runs two optimizers (and other users of the library) interleaved in one process and records
what each of them does, together with its solo run and a run in another process."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import types

import numpy as np

from common import *  # noqa
import common
import asktell

SIMPLE = (int, float, str, bool, type(None), np.integer, np.floating, np.bool_)


def simple(v, depth=0):
    if isinstance(v, SIMPLE):
        return repr(v)
    if isinstance(v, np.ndarray) and v.dtype != object:
        return v.tobytes().hex()
    if depth < 3 and isinstance(v, dict):
        return {str(k): simple(x, depth + 1) for k, x in v.items()}
    if depth < 3 and isinstance(v, (list, tuple)):
        return [simple(x, depth + 1) for x in v]
    return type(v).__name__


def settings(s):
    if s is None or s.o is None:
        return 0
    d = {k: simple(v) for k, v in vars(s.o).items() if k not in ("data", "logger", "model")}
    sp = s.o.search_space
    d["space"] = [str(sp.var_name), repr(sp.bounds), repr(sp.var_type), len(sp)]
    d["hist"] = s.hist(s.o)
    return digest(d)


def digest(x):
    return int(hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:7], 16) + 1


def rng_id():
    import random
    a = np.random.get_state()
    return digest([a[1].tolist(), a[2], a[3], a[4], repr(random.getstate())])


class Rng:
    """a private stream of the global generators"""

    def __init__(self, seed):
        import random
        self.np = np.random.RandomState(seed).get_state()
        self.py = random.Random(seed).getstate()

    def __enter__(self):
        import random
        self.outer = (np.random.get_state(), random.getstate())
        np.random.set_state(self.np)
        random.setstate(self.py)

    def __exit__(self, *a):
        import random
        self.np, self.py = np.random.get_state(), random.getstate()
        np.random.set_state(self.outer[0])
        random.setstate(self.outer[1])
        return False


class Prog:
    """an optimizer with its program, executed one operation at a time"""

    def __init__(self, sc, start, shared=None):
        self.sc, self.i = sc, 0
        self.s = asktell.Session(sc)
        self.rng = Rng(start)
        self.shared = shared or {}
        self.prev = None

    def ops(self):
        return [dict(op="build")] + self.sc["ops"]

    def step(self):
        op = self.ops()[self.i]
        self.i += 1
        s = self.s
        with self.rng:
            if op["op"] == "build":
                ev = dict(op="build")
                try:
                    s.o = s.build(shared=self.shared)
                    ev["exc"] = ""
                except Exception as e:
                    ev["exc"] = exc_name(e)
                if s.o is not None:
                    ev["st"] = s.snap()
                return digest(ev)
            if s.o is None or (op["op"] == "tell" and s.last is None):
                return 1
            ev = dict(op=op["op"])
            getattr(s, "op_" + op["op"])(op, ev)
            ev["st"] = s.snap()
            ev["pts"] = s.pts
            if op["op"] == "tell":
                s.last = None
            return digest(ev)

    def close(self):
        import shutil
        shutil.rmtree(self.s.dir, ignore_errors=True)


def solo(sc, start, share):
    p = Prog(sc, start, make_shared(sc) if share else None)
    out = [p.step() for _ in p.ops()]
    p.close()
    return out


def make_shared(sc):
    """arguments that two optimizers of the same configuration may share"""
    d = dict(space=build_space(SPACES[sc["space"]]),
             aqopt=dict(max_FEs=sc.get("aqfe", 30), n_restart=sc.get("aqr", 2)))
    if sc.get("acq_par") is not None:
        d["acq_par"] = dict(sc["acq_par"])
    return d


def in_child(job):
    """the solo runs in another process, with another hash seed"""
    d = tempfile.mkdtemp(prefix="if_")
    a, b = os.path.join(d, "i.json"), os.path.join(d, "o.json")
    with open(a, "w") as f:
        json.dump([dict(job, child=False, onlysolo=True)], f)
    env = dict(os.environ, PYTHONHASHSEED=str(1 + job["tid"] % 1000))
    subprocess.run([sys.executable, os.path.abspath(__file__), a, b], env=env, check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
    with open(b) as f:
        r = json.load(f)[0]
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return r


def noise(k, n, sc):
    """other users of the library; returns (same, redraw)"""
    from bayes_optim.search_space import SearchSpace
    V = SPACES[["mix", "real2", "subs", "mix2", "zero"][n % 5]]
    seeded = n % 2 == 0
    st = (np.random.get_state())
    sp = build_space(V, random_seed=7) if seeded and k != "space" else build_space(V)
    if seeded and k != "space":
        np.random.set_state(st)     # the construction of a seeded space may seed
    r0 = rng_id()
    same = redraw = True
    probe = []
    if k == "space":
        build_space(V)
    elif k == "slice":
        sp[0], sp[[0, 1]], sp[:1], sp[sp.var_name[0]], sp[-1:]
    elif k == "filter":
        sp.filter(sp.var_name[:1]), sp.filter(sp.var_name[:1], invert=True)
    elif k == "query":
        sp.bounds, sp.var_name, sp.dim, sp.levels, len(sp), str(sp), list(sp), sp.real_id
        x = [v.draw(common.random.Random(n)) for v in V]
        x in sp
    elif k == "arith":
        sp2 = build_space(SPACES["real1"])
        if not seeded:
            sp + sp2, sp * 2, sp - sp2
    elif k == "sample":
        np.random.seed(11)
        a = sp.sample(4)
        h1 = rng_id()
        np.random.seed(12)
        b = sp.sample(4)
        h2 = rng_id()
        probe = [h1, h2]
        if any(v.k == "real" and v.a.get("precision") is None for v in V):
            redraw = bool(repr(np.asarray(a, dtype=object).tolist()) != repr(np.asarray(b, dtype=object).tolist()))
        np.random.set_state(st)
    elif k == "seeded":
        a = build_space(V, random_seed=n % 3).sample(3)
        np.random.rand(n)
        b = build_space(V, random_seed=n % 3).sample(3)
        same = bool(repr(np.asarray(a, dtype=object).tolist()) == repr(np.asarray(b, dtype=object).tolist()))
        np.random.set_state(st)
    elif k == "other":
        s = asktell.Session(dict(sc, cls=["ParallelBO", "BO", "MOBO", "AnnealingBO"][n % 4], seed=n + 3, min=[True, False][:2 if n % 4 == 2 else 1],
                                 nobj=2 if n % 4 == 2 else 1, space="real2", cons="none", warm=None, acq=None, acq_par=None, optimizer=None,
                                 npt=0, doe=3, budget=40, critx=dict(on=False), csv=False, extra={}, target=None, model="stub"))
        s.o = s.build()
        for j in range(2):
            ev = {}
            X = s.op_ask(dict(n=0, fix=0), ev)
            s.do_tell(X, [3, 1, 2], ev)
        import shutil
        shutil.rmtree(s.dir, ignore_errors=True)
    return r0, rng_id(), same, redraw, probe


def probe_ask(s):
    """the next request from two different states of the generator (on copies)"""
    import dill
    if s.o is None:
        return [], True
    f = os.path.join(s.dir, "probe.dump")
    outer = np.random.get_state()
    try:
        s.o.save(f)
        hs, outs = [], []
        for seed in (101, 202):
            p = type(s.o).load(f)
            np.random.seed(seed)
            try:
                X = p.ask()
                outs.append(repr(X))
            except Exception as e:
                return [], True
            hs.append(rng_id())
        free = any(v.k == "real" and v.a.get("precision") is None for v in s.V)
        red = True if (s.o.model.is_fitted or not free) else outs[0] != outs[1]
        return hs, bool(red)
    except JobTimeout:
        raise
    except Exception:
        return [], True
    finally:
        np.random.set_state(outer)


def run(job):
    A, B = job["A"], job["B"]
    share = job.get("share", False)
    solos = [solo(A, 5, share), solo(B, 6, share)]
    if job.get("onlysolo"):
        return dict(solo=solos)
    again = [[], []]
    if job.get("child"):
        again = in_child(job)["solo"]
    # seeded optimizers start from another state of the generator than in their solo run
    sh = make_shared(A) if share else None
    sh0 = repr({k: v for k, v in sh.items() if k != "space"}) if sh else ""
    P = [Prog(A, 5 if not A.get("seeded", True) else 77, sh), Prog(B, 6 if not B.get("seeded", True) else 78, sh)]
    evs = []
    n = job["tid"]
    for x in job["sched"]:
        n += 1
        e = dict(w=x["w"], k=x["k"], obs=0, r0=0, r1=0, same=True, redraw=True, probe=[])
        if x["w"]:
            p = P[x["w"] - 1]
            e["obs"] = p.step()
            if n % 3 == 0:
                e["probe"], e["redraw"] = probe_ask(p.s)
        else:
            try:
                e["r0"], e["r1"], e["same"], e["redraw"], e["probe"] = noise(x["k"], n, A)
            except JobTimeout:
                raise
            except Exception as ex:
                e["k"] = "failed " + x["k"] + " " + exc_name(ex)
        e["set"] = [settings(p.s) for p in P]
        e["args"] = bool(not sh or sh0 == repr({k: v for k, v in sh.items() if k != "space"}))
        evs.append(e)
    for p in P:
        p.close()
    return dict(tid=job["tid"], key="%s+%s%s" % (A["key"], B["key"], "+shared" if share else ""), scenario=job,
                solo=solos, again=again, ev=evs)


if __name__ == "__main__":
    common.main(run)
