"""Builds conditional search spaces from generated forests, applies an operation and lists the
unconditional subspaces; replays histories on the conditional optimizer."""
import random

import numpy as np

from common import *  # noqa
import common

LEV = dict(int=[-1, 0, 1, 2], cat=["A", "b c", "x_1"], catn=[0, -2.5, 7], bool=[False, True], ord=[10, 20, 30],
           mixed=[1, "1", "one"])
NAMES = [["v", "v1", "v11", "v12", "v2", "w", "w1", "w_1"], ["C_0", "C_1", "C", "K", "K_0", "algo", "alg", "al"],
         ["z", "y", "x", "w", "v", "u", "t", "s"]]


def declare(job):
    """the declared variables (common.Var), in order of the forest"""
    S, st = job["S"], job["tid"]
    rng = random.Random(st)
    names = NAMES[st % 3]
    out = []
    for i, d in enumerate(S):
        k, n = d["k"], names[i]
        a = {}
        if d["p"]:
            p = S[d["p"] - 1]
            pn, lv = names[d["p"] - 1], LEV[p["k"]][d["v"] - 1]
            if isinstance(lv, str):
                q = rng.choice(["'", '"']) if job["style"] else "'"
                lv = q + lv + q
            else:
                lv = repr(lv)
            a["cond"] = pn + (rng.choice([" == ", "==", " ==", "== "]) if job["style"] else " == ") + lv
        c = a.pop("cond", None) if job["explicit"] else None
        if k == "real":
            v = R(n, -5, 5, precision=[None, 1][st % 2], **a) if i % 2 else R(n, 0.5, 8, scale=["linear", "log"][st % 2], **a)
        elif k == "sub":
            v = S_(n, "p", "q", "r", **a)
        elif k == "int":
            v = I(n, -1, 2, **a)
        elif k == "bool":
            v = Bv(n, **a)
        elif k == "ord":
            v = O(n, *LEV["ord"], **a)
        else:
            v = C(n, *LEV[k], **a)
        v.given = (names[d["p"] - 1], c) if c else None
        out.append(v)
    return out


def make_space(vars_):
    """conditions declared with the variables, or as a structure of the space"""
    from bayes_optim.search_space import SearchSpace
    st = {}
    for v in vars_:
        if v.given:
            st.setdefault(v.given[0], []).append(dict(name=v.name, condition=v.given[1]))
    return SearchSpace([v.build() for v in vars_], structure=st) if st else SearchSpace([v.build() for v in vars_])


S_ = S


def ident(v):
    from bayes_optim.search_space.variable import Real, Integer
    r = [type(v).__name__, v.name, repr(tuple(v.bounds)), repr(v.default_value)]
    if isinstance(v, Real):
        r += [repr(v.precision), str(v.scale)]
    if isinstance(v, Integer):
        r += [repr(v.step)]
    return tuple(r)


def level(k, v):
    if k not in LEV:
        return -1
    for i, x in enumerate(LEV[k]):
        if kind(x) == kind(v) and canon(x) == canon(v):
            return i + 1
    return -1


def run_space(job):
    from bayes_optim.search_space import SearchSpace
    S, op, keep = job["S"], job["op"], sorted(job["keep"])
    rng = random.Random(job["tid"] + 5)
    decl = declare(job)
    order = list(range(1, len(S) + 1))
    if job["shuffle"]:
        rng.shuffle(order)
    name = lambda i: decl[i - 1].name
    make = lambda idx: make_space([decl[i - 1] for i in order if i in idx])
    rest = [i for i in order if i not in keep]
    rec = dict(tid=job["tid"], k="space", exc="", S=S, keep=keep, key=f"{op} {[(d['k'], d['p'], d['v']) for d in S]}",
               scenario=job, subs=[], kept=True)
    try:
        full = make(order)
        want = {i: ident(full[name(i)]) for i in order}
        src, before = None, None

        def subs(sp):
            out = []
            for key, cs in sp.get_unconditional_subspace():
                lv = [0] * len(S)
                ok = True
                for n, v in key.items():
                    i = [j for j in order if name(j) == n]
                    if not i:
                        ok = False
                    else:
                        lv[i[0] - 1] = level(S[i[0] - 1]["k"], v)
                vs = [([j for j in order if name(j) == n] + [0])[0] for n in cs.var_name]
                intact = ok and all(j and ident(cs.data[c]) == want[j] for c, j in enumerate(vs))
                out.append(dict(key=lv, vars=vs, intact=bool(intact)))
            return out

        if op == "none":
            res = full
        elif op == "json":
            import os
            import tempfile
            if job["tid"] % 2:
                res = SearchSpace.from_dict(full.to_dict())
            else:
                fd, fn = tempfile.mkstemp(suffix=".json")
                os.close(fd)
                full.to_json(fn)
                res = SearchSpace.from_json(fn)
                os.unlink(fn)
        elif op in ("sum", "concat", "isum"):
            a, b = make(keep), make(rest)
            if job["tid"] % 2:
                a, b = b, a
            sa, sb = repr(subs(a)), repr(subs(b))
            if op == "sum":
                res = a + b
            elif op == "concat":
                res = SearchSpace.concat(a, b)
            else:
                res = a
                res += b
            rec["kept"] = repr(subs(b)) == sb and (op == "isum" or repr(subs(a)) == sa)
            rec["keep"] = sorted(order)
        else:
            before = repr(subs(full))
            pure = True
            if op == "slice":
                w = job["tid"] % 3
                ns = [name(i) for i in order if i in keep]
                if w == 0:
                    res = full[ns]
                elif w == 1:
                    res = full[[k for k, i in enumerate(order) if i in keep]]
                else:
                    res = full[np.array([i in keep for i in order])]
            elif op == "filter":
                if job["tid"] % 2:
                    res = full.filter([name(i) for i in keep])
                else:
                    res = full.filter([name(i) for i in rest], invert=True)
            elif op == "sub":
                res = full - make(rest) if rest else full
            elif op == "isub":
                res, pure = full, False
                if rest:
                    res -= make(rest)
            else:       # remove, pop
                res, pure = full, False
                if op == "remove":
                    res.remove(name(rest[0]) if job["tid"] % 2 else order.index(rest[0]))
                else:
                    res.pop(order.index(rest[0]))
            if pure:
                rec["kept"] = repr(subs(full)) == before
        if not isinstance(res, SearchSpace):
            return dict(rec, exc="NotASpace")
        rec["subs"] = subs(res)
        rec["kept"] = bool(rec["kept"] and sorted(res.var_name) == sorted(name(i) for i in rec["keep"]))
    except Exception as e:
        return dict(rec, exc=exc_name(e))
    return rec


class LStub(Stub):
    def __init__(self, levels=None, **kw):
        super().__init__(salt=3)
        self.levels = levels


def run_bo(job):
    import bayes_optim.extension as X
    from bayes_optim.search_space import SearchSpace
    S = job["S"]
    rng = random.Random(job["tid"] + 11)
    decl = declare(job)
    order = list(range(1, len(S) + 1))
    if job["shuffle"]:
        rng.shuffle(order)
    names = [v.name for v in decl]
    real = None
    if job["stub"] and hasattr(X, "RandomForest"):
        real = X.RandomForest
        X.RandomForest = LStub
    it = Interner()
    ev = []
    rec = dict(tid=job["tid"], k="bo", S=S, mn=job["mn"], ev=ev, decl=[v.desc() for v in decl], scenario=job,
               key=f"bo {[(d['k'], d['p'], d['v']) for d in S]} {job['way']}")

    def pid(d):
        return it(("p", tuple(canon(d.get(n)) for n in names)))

    code = {}

    def val(v, f):
        """distinct values; a failed evaluation where requested"""
        c = 5 if job.get("flat") and len(code) < 9 else len(code) * 3 + v * 7 % 11 - 5
        code[float(c)] = c
        return (math.nan, NAN) if f else (float(c), c)

    def point(d):
        if not isinstance(d, dict):
            return []
        out = []
        for i, n in enumerate(names):
            v = d.get(n)
            out.append(dict(p=v is not None, e=decl[i].enc(v, it) if v is not None else dict(t="none", a=0, b=0, q=0),
                            l=level(S[i]["k"], v) if v is not None else 0))
        return out

    def fits(bo):
        """what the surrogates of the subspaces know: points (by the values of the active plain
        variables, in any order, which identify them unless ambiguous) and ranks of their values"""
        found, seen = [], set()

        def walk(o, depth):
            if id(o) in seen or depth > 5:
                return
            seen.add(id(o))
            if isinstance(o, LStub):
                found.append(o)
            elif isinstance(o, (list, tuple)):
                for q in o[:60] if not isinstance(o, np.ndarray) else []:
                    walk(q, depth + 1)
            elif isinstance(o, dict):
                for q in o.values():
                    walk(q, depth + 1)
            elif type(o).__module__.startswith("bayes_optim") and hasattr(o, "__dict__"):
                for q in list(vars(o).values()):
                    walk(q, depth + 1)

        walk(bo, 0)
        out = []
        for m in found:
            if m.fits:
                Xs, ys = m.fits[-1]
                u = sorted(set(y[0] for y in ys))
                out.append([dict(id=plain.get(tuple(sorted(repr(canon(v)) for v in r)), 0), r=u.index(y[0])) for r, y in zip(Xs, ys)])
        return out

    plain = {}
    sel = {d["p"] for d in S}

    def note(d):
        """remember a reported point by its plain values"""
        r = tuple(sorted(repr(canon(d[names[i - 1]])) for i in order if i not in sel and d.get(names[i - 1]) is not None))
        i = pid(d)
        plain[r] = i if plain.get(r, i) == i else -1

    def back(y):
        y = float(np.ravel(y)[0])
        return code.get(y, UNKNOWN) if math.isfinite(y) else NAN

    def state(bo):
        rows = []
        if hasattr(bo, "data"):
            D = bo.data
            ds = D.to_dict()
            ds = ds if isinstance(ds, list) else [ds]
            rows = [dict(id=pid(d), y=back(f)) for d, f in zip(ds, np.ravel(D.fitness))]
        best = dict(id=0, y=0)
        if bo.xopt is not None:
            xo = bo.xopt.to_dict()
            xo = xo[0] if isinstance(xo, list) else xo
            best = dict(id=pid(xo), y=back(bo.xopt.fitness))
        return dict(rec=rows, eval=int(bo.eval_count), iter=int(bo.iter_count), best=best,
                    hf=[back(h) for h in bo.hist_f], fits=fits(bo))

    try:
        sp = make_space([decl[i - 1] for i in order])
        kw = dict(search_space=sp, DoE_size=job["doe"], max_FEs=1000, n_point=job["npt"], minimize=job["mn"],
                  random_seed=job["seed"], acquisition_optimization={"max_FEs": 20, "n_restart": 1}, verbose=False)
        log = []
        if job["way"] == "run":
            script = [(h["v"], (h["f"] == 0)) for h in job["hist"] for _ in range(4)]

            def obj(d):
                v, c = val(*script[len(log) % len(script)])
                log.append((dict(d), c))
                return v
            kw["obj_fun"] = obj
        else:
            kw["obj_fun"] = lambda d: 0.0
        bo = X.ConditionalBO(**kw)
        for k, h in enumerate(job["hist"]):
            n = h["n"] or None
            want = h["n"] or job["npt"]
            if job["way"] == "run":
                n0 = len(log)
                exc = ""
                try:
                    bo.step()
                except Exception as e:
                    exc = exc_name(e)
                    if exc != "FlatFitnessError":
                        raise
                pts = log[n0:]
                for d, _ in pts:
                    note(d)
                ev.append(dict(k="ask", n=job["npt"], pts=[point(d) for d, _ in pts], exc=""))
                ev.append(dict(k="tell", ids=[pid(d) for d, _ in pts], ys=[c for _, c in pts], exc=exc, **state(bo)))
                continue
            if job["way"] == "load" and k and h["f"] == 1:
                import os
                import tempfile
                fd, fn = tempfile.mkstemp()
                os.close(fd)
                bo.save(fn)
                bo = X.ConditionalBO.load(fn)
                os.unlink(fn)
            X_ = bo.ask(n) if n else bo.ask()
            ev.append(dict(k="ask", n=want, pts=[point(d) for d in X_], exc=""))
            ys, cs = [], []
            for j in range(len(X_)):
                v, c = val(h["v"] + j, h["f"] == 0 and j % 2 == 0)
                ys.append(v)
                cs.append(c)
            ids = [pid(d) for d in X_]
            for d in X_:
                note(d)
            exc = ""
            try:
                bo.tell(X_, ys)
            except Exception as e:
                exc = exc_name(e)
                if exc != "FlatFitnessError":
                    raise
            ev.append(dict(k="tell", ids=ids, ys=cs, exc=exc, **state(bo)))
    except Exception as e:
        ev.append(dict(k="ask", n=0, pts=[], exc=exc_name(e)))
    finally:
        if real is not None:
            X.RandomForest = real
    rec["ambig"] = -1 in plain.values()      # surrogates cannot be attributed
    return rec


def run(job):
    return run_space(job) if job["mode"] == "space" else run_bo(job)


if __name__ == "__main__":
    common.main(run)
