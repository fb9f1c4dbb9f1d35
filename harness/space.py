"""Executes generated sequences of search-space operations."""
import copy
import os

import numpy as np

from common import *  # noqa
import common

NAMES = ["x", "x", "x0", "y", "x", "i", "i0", "c", "c", "o", "b", "s", "y", "x1", "i", "o", "b", "i", "x", "c"]


def decl(k, name=None):
    from bayes_optim.search_space.variable import Bool, Discrete, Integer, Ordinal, Real, Subset
    n = NAMES[k - 1] if name is None else name
    return [
        lambda: Real([0, 1], name=n),
        lambda: Real([-5.0, 5.0], name=n, default_value=0.5, precision=2),
        lambda: Real([0.001, 10], name=n, scale="log10"),
        lambda: Real([-5.0, 5.0], name=n, default_value=0.5, precision=0),
        lambda: Real([1, 100], name=n, scale="log", precision=1),
        lambda: Integer([0, 10], name=n),
        lambda: Integer([0, 10], name=n, step=3, default_value=6),
        lambda: Discrete(["a", "b", "c"], name=n),
        lambda: Discrete([1, "1", 2.5], name=n, default_value="1"),
        lambda: Ordinal([1, 5, 7], name=n, default_value=5),
        lambda: Bool(name=n, default_value=False),
        lambda: Subset(["u", "v"], name=n, default_value=("u",)),
        lambda: Real([-20, 50], name=n, scale="bilog", default_value=-3),
        lambda: Real([0.1, 0.9], name=n, scale="logit"),
        lambda: Integer([-3, 3], name=n, default_value=0),
        lambda: Ordinal(["lo", "hi", "mid", "top", "lo", "a"], name=n),
        lambda: Bool(name=n, default_value=None),
        lambda: Integer([0, 10], name=n, step=2),
        lambda: Real([-5.0, 5.0], name=n, default_value=0.5, precision=1),
        lambda: Discrete(["b", "a", "b"], name=n, default_value="b"),
    ][k - 1]()


# type, range or levels, default, precision, scale, step: what the declarations above say
LITERAL = [
    ("Real", [0, 1], None, None, "linear", None),
    ("Real", [-5.0, 5.0], 0.5, 2, "linear", None),
    ("Real", [0.001, 10], None, None, "log10", None),
    ("Real", [-5.0, 5.0], 0.5, 0, "linear", None),
    ("Real", [1, 100], None, 1, "log", None),
    ("Integer", [0, 10], None, None, None, 1),
    ("Integer", [0, 10], 6, None, None, 3),
    ("Discrete", ["a", "b", "c"], None, None, None, None),
    ("Discrete", [1, "1", 2.5], "1", None, None, None),
    ("Ordinal", [1, 5, 7], 5, None, None, None),
    ("Bool", [False, True], False, None, None, None),
    ("Subset", [("u",), ("v",), ("u", "v")], ("u",), None, None, None),
    ("Real", [-20, 50], -3, None, "bilog", None),
    ("Real", [0.1, 0.9], None, None, "logit", None),
    ("Integer", [-3, 3], 0, None, None, 1),
    ("Ordinal", ["lo", "hi", "mid", "top", "a"], None, None, None, None),
    ("Bool", [False, True], None, None, None, None),
    ("Integer", [0, 10], None, None, None, 2),
    ("Real", [-5.0, 5.0], 0.5, 1, "linear", None),
    ("Discrete", ["b", "a"], "b", None, None, None),
]


def tag(x):
    return kind(x), x


def public(v):
    return (type(v).__name__, [tag(x) for x in v.bounds], tag(v.default_value), tag(getattr(v, "precision", None)),
            getattr(v, "scale", None), tag(getattr(v, "step", None)), (v.conditions or {}).get("string"))


def internal(v):
    return getattr(v, "_size", None), [round(float(x), 12) for x in getattr(v, "_bounds_transformed", ())]


def attrs(v):
    """everything a declaration says, except the name"""
    return repr((public(v), internal(v)))


def declared(k):
    """the same, as declared"""
    t, b, d, p, sc, st = LITERAL[k - 1]
    return repr(((t, [tag(x) for x in b], tag(d), tag(p), sc, tag(st), None), internal(decl(k))))


def tables():
    from bayes_optim.search_space.variable import Variable  # noqa
    by = {}
    bounds = {}
    kinds = []
    for k in range(1, len(NAMES) + 1):
        v = decl(k)
        by[declared(k)] = k
        bounds.setdefault(repr([(kind(x), x) for x in v.bounds]), set()).add(k)
        kinds.append(type(v).__name__)
    return by, bounds, kinds


def did(by, v):
    try:
        return by.get(attrs(v), 0)
    except Exception:
        return 0


def bid(bounds, b, want):
    s = bounds.get(repr([(kind(x), x) for x in b]), set())
    return want if want in s else 0


def view(cs, T):
    by, bounds, _ = T
    vs = [dict(nm=str(v.name), d=did(by, v)) for v in cs.data]
    ids, masks = {}, {}
    for k in ["Real", "Integer", "Discrete", "Ordinal", "Bool", "Subset", "categorical"]:
        ids[k] = [int(x) + 1 for x in getattr(cs, k.lower() + "_id", [-9])]
        m = getattr(cs, k.lower() + "_mask", None)
        masks[k] = [int(x) + 1 for x in np.nonzero(m)[0]] if m is not None and len(m) == len(vs) else [-9]
    lv = getattr(cs, "levels", {-9: ()})
    byname = True
    for i, v in enumerate(vs):
        try:
            byname = byname and cs[v["nm"]] is cs.data[i] and (v["nm"] in cs) and cs[i] is cs.data[i]
        except Exception:
            byname = False
    byname = byname and "no such name" not in cs
    bs = list(cs.bounds)
    return dict(vars=vs, names=[str(x) for x in cs.var_name], types=[str(x) for x in cs.var_type],
                bounds=[bid(bounds, b, vs[i]["d"] if i < len(vs) else 0) for i, b in enumerate(bs)],
                dim=int(cs.dim), len=len(cs), iter=[did(by, v) for v in cs],
                ids=ids, masks=masks,
                levels=[dict(i=int(i) + 1, d=bid(bounds, b, vs[int(i)]["d"] if int(i) < len(vs) else 0)) for i, b in lv.items()],
                byname=bool(byname), cls=type(cs).__name__)


def build(ds, form):
    from bayes_optim.search_space import (BoolSpace, DiscreteSpace, IntegerSpace, OrdinalSpace, RealSpace, SearchSpace,
                                          SubsetSpace)
    vs = [decl(d) for d in ds]
    names = [v.name for v in vs]
    t = set(type(v).__name__ for v in vs)
    if form == 1 and len(t) == 1:
        t = t.pop()
        dv = [v.default_value for v in vs]
        dv = None if all(x is None for x in dv) else dv
        b = [list(v.bounds) for v in vs]
        if t == "Real":
            return RealSpace(b, var_name=names, default_value=dv, precision=[v.precision for v in vs],
                             scale=[v.scale for v in vs]), True
        if t == "Integer":
            return IntegerSpace(b, var_name=names, default_value=dv, step=[v.step for v in vs]), True
        if t == "Discrete":
            return DiscreteSpace(b, var_name=names, default_value=dv), True
        if t == "Ordinal":
            return OrdinalSpace(b, var_name=names, default_value=dv), True
        if t == "Bool" and len(vs) == 1 and vs[0].default_value is not None:
            return BoolSpace(var_name=names, default_value=vs[0].default_value), True
        if t == "Subset" and len(vs) == 1:
            return SubsetSpace([list(v._bounds) for v in vs], var_name=names, default_value=[("u",)]), True
    if form == 2:       # a sum of one-variable spaces
        out = SearchSpace([])
        for v in vs:
            out = out + SearchSpace([v])
        if len(set(names)) == len(names):
            return out, names == [v.name for v in vs]
        vs = [decl(d) for d in ds]
    if form == 3 and len(set(ds)) < len(ds):    # the very same object several times
        o = {d: decl(d) for d in ds}
        vs = [o[d] for d in ds]
    given = list(vs)
    cs = SearchSpace(vs)
    return cs, names == [v.name for v in given] and len(vs) == len(given)


def family(d, n, nm, f):
    """n variables of one declaration, declared together"""
    from bayes_optim.search_space import (BoolSpace, DiscreteSpace, IntegerSpace, OrdinalSpace, RealSpace, SubsetSpace)
    v = decl(d)
    t = type(v).__name__
    b = [list(getattr(v, "_bounds", v.bounds)) for _ in range(n)]
    if n == 1 and f == "scalar":
        b = b[0]
    names = nm if f == "scalar" else [nm + str(i) for i in range(n)] if n > 1 else [nm]
    many = (lambda x: x) if f == "scalar" else (lambda x: None if x is None else [x] * n)
    dv = many(v.default_value)
    if t == "Subset" and dv is not None:
        dv = [v.default_value] * n
    if t == "Bool":
        if n > 1 or v.default_value is None:    # no default is given: there `None` means unspecified
            return None
        return BoolSpace(var_name=names, default_value=dv)
    if t == "Real":
        return RealSpace(b, var_name=names, default_value=dv, precision=many(v.precision), scale=many(v.scale))
    if t == "Integer":
        return IntegerSpace(b, var_name=names, default_value=dv, step=many(v.step))
    return dict(Discrete=DiscreteSpace, Ordinal=OrdinalSpace, Subset=SubsetSpace)[t](b, var_name=names, default_value=dv)


ALIAS = dict(real=["r", "real", "real"], integer=["i", "int", "integer"], ordinal=["o", "ordinal", "o"],
             cat=["c", "cat", "cat"], subset=["s", "subset", "s"], bool=["b", "bool", "b"])


def expand(es, al):
    from bayes_optim.search_space import SearchSpace
    d = {}
    for e in es:
        v = decl(e["d"])
        t = type(v).__name__.lower()
        x = dict(range=list(getattr(v, "_bounds", v.bounds)), type=ALIAS["cat" if t == "discrete" else t][al], N=e["n"])
        if v.default_value is not None or al:
            x["default"] = v.default_value
        if t == "real":
            x.update({k: y for k, y in [("precision", v.precision), ("scale", v.scale)] if al or y not in (None, "linear")})
        if t == "integer" and (al or v.step != 1):
            x["step"] = v.step
        if t == "bool":
            x.pop("range")
        if e["n"] == 1 and not al:
            x.pop("N")
        d[v.name] = x
    d0 = copy.deepcopy(d)
    cs = SearchSpace.from_dict(d)
    return cs, repr(d0) == repr(d)


def relations(regs):
    out = []
    for a in sorted(regs):
        for b in sorted(regs):
            A, B = regs[a], regs[b]
            out.append(dict(a=a, b=b, eq=bool(A == B), ne=bool(A != B), has=bool(B in A), each=[bool(v in A) for v in B.data]))
    return out


def clone(A, f):
    from bayes_optim.search_space import SearchSpace
    from bayes_optim.search_space.variable import Bool, Discrete, Integer, Ordinal, Real, Subset
    if f == "copy":
        return copy.deepcopy(A)
    if f == "pickle":
        import dill
        return dill.loads(dill.dumps(A))
    if f == "space":
        return SearchSpace(A.data)
    other = dict(Real=lambda: Real([7, 8], name="t", default_value=7.5), Integer=lambda: Integer([3, 4], name="t", default_value=4),
                 Discrete=lambda: Discrete(["q"], name="t"), Ordinal=lambda: Ordinal([9, 8], name="t"),
                 Bool=lambda: Bool(name="t"), Subset=lambda: Subset([1, 2, 3], name="t"))
    vs = []
    for v in A.data:
        w = other[type(v).__name__]()
        w.copyfrom(v)
        vs.append(w)
    return SearchSpace(vs)


def run(job):
    from bayes_optim.search_space import SearchSpace
    T = tables()
    regs = {int(r): SearchSpace([]) for r in job["regs"]}
    ev = []
    for n, o in enumerate(job["ops"]):
        exc, args, ret, eq = "", True, 0, True
        t = o["t"]
        A = regs.get(o.get("a", t))
        B = regs.get(o.get("b", t))
        try:
            op = o["op"]
            if op == "new":
                regs[t], args = build(o["ds"], (n + job["tid"]) % 4)
            elif op == "add":
                regs[t] = A + B
            elif op == "concat":
                regs[t] = SearchSpace.concat(A, B)
            elif op == "concat3":
                regs[t] = SearchSpace.concat(A, B, regs[o["c"]])
            elif op == "sub":
                regs[t] = A - B
            elif op == "mul":
                regs[t] = o["n"] * A if o["left"] else A * o["n"]
            elif op == "pick":
                idx = [k - 1 for k in o["idx"]]
                f = o["f"]
                nm = list(A.var_name)
                key = (slice(idx[0], idx[-1] + 1) if idx else slice(0, 0)) if f == "slice" else \
                    [k in idx for k in range(A.dim)] if f == "mask" else \
                    [nm[k] for k in idx] if f == "names" else np.array(idx, dtype=int) if f == "arr" else \
                    [k - A.dim if (n + k) % 3 == 0 else k for k in idx]
                k0 = copy.deepcopy(key)
                regs[t] = A[key]
                args = repr(k0) == repr(key)
            elif op == "filter":
                keys = [A.var_name[k - 1] for k in o["idx"]] + (["nonexistent"] if n % 2 else [])
                if len(o["idx"]) % 2 == 0:      # the order of the keys does not matter
                    keys = keys[::-1]
                k0 = list(keys)
                regs[t] = A.filter(keys, invert=o["inv"]) if o["inv"] else A.filter(keys)
                args = k0 == keys
            elif op == "clone":
                regs[t] = clone(A, o["f"])
                eq = bool(regs[t] == A) and not bool(regs[t] != A)
            elif op == "dict":
                d = A.to_dict()
                d0 = copy.deepcopy(d)
                regs[t] = SearchSpace.from_dict(d)
                args = repr(d0) == repr(d)
                eq = bool(regs[t] == A) and not bool(regs[t] != A)
            elif op == "json":
                fn = os.path.join(os.environ["TMPDIR"], "space.json")
                A.to_json(fn)
                with open(fn) as f:
                    s0 = f.read()
                regs[t] = SearchSpace.from_json(fn)
                with open(fn) as f:
                    args = f.read() == s0
                eq = bool(regs[t] == A) and not bool(regs[t] != A)
            elif op == "iadd":
                regs[t] += B
            elif op == "isub":
                regs[t] -= B
            elif op == "imul":
                regs[t] *= o["n"]
            elif op == "update":
                r = regs[t].update(B)
                args = r is None or r is regs[t]
            elif op == "remove":
                regs[t].remove(o["i"] - 1 - (regs[t].dim if n % 2 else 0) if o["f"] == "int" else regs[t].var_name[o["i"] - 1])
            elif op == "pop":
                last = o["i"] == regs[t].dim
                ret = did(T[0], regs[t].pop() if last and n % 2 else regs[t].pop(o["i"] - 1 - (regs[t].dim if n % 3 == 0 else 0)))
            elif op == "set":
                i = o["i"] - 1
                v = decl(o["d"])
                if o["f"] == "int":
                    regs[t][i - (regs[t].dim if n % 2 else 0)] = v
                elif o["f"] == "name":
                    regs[t][regs[t].var_name[i]] = v
                else:
                    regs[t][[i]] = [v]
            elif op == "twin":
                cs = copy.deepcopy(A)
                cs[o["i"] - 1] = decl(o["d"], A.var_name[o["i"] - 1])
                regs[t] = cs
            elif op == "puts":
                idx = [k - 1 for k in o["idx"]]
                vs = [decl(d) for d in o["ds"]]
                names0 = [v.name for v in vs]
                if o["f"] == "int":
                    regs[t][list(idx)] = vs
                elif o["f"] == "name":
                    regs[t][[regs[t].var_name[i] for i in idx]] = vs
                elif o["f"] == "slice":
                    regs[t][idx[0]:idx[1] + 1] = vs
                else:
                    regs[t][list(idx)] = vs[0]
                args = names0 == [v.name for v in vs]
            elif op == "fam":
                regs[t] = family(o["d"], o["n"], o["nm"], o["f"]) or SearchSpace(
                    [decl(o["d"], o["nm"] + str(i) if o["n"] > 1 else o["nm"]) for i in range(o["n"])])
            elif op == "expand":
                regs[t], args = expand(o["es"], o["al"])
            elif op == "rename":
                regs[t].var_name = list(o["nms"]) if n % 2 or not o["nms"] else o["nms"][0][:-1]
        except Exception as e:
            exc = exc_name(e)
        ev.append(dict(o=o, exc=exc, args=bool(args), ret=ret, eq=bool(eq), rel=relations(regs), regs=[view(regs[r], T) for r in sorted(regs)]))
    ds = [decl(k) for k in range(1, len(NAMES) + 1)]
    cls = {}
    same = [cls.setdefault(repr((type(v).__name__, v.bounds, v.default_value)), len(cls)) for v in ds]
    return dict(tid=job["tid"], key="space", declname=NAMES, kinds=T[2], same=same, ev=ev, scenario=job)


if __name__ == "__main__":
    common.main(run)
