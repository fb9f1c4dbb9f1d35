-------------------------------- MODULE Space --------------------------------
(***************************************************************************)
(* Algebra of search spaces.  A space is a sequence of variables           *)
(* [nm |-> name, d |-> declaration]; a declaration stands for kind, range, *)
(* levels, default, precision, scale and step together.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s)   == {s[i] : i \in DOMAIN s}
Names(s) == {s[i].nm : i \in DOMAIN s}
Decls(s) == [i \in DOMAIN s |-> s[i].d]
Count(s, n) == Cardinality({i \in DOMAIN s : s[i].nm = n})
Unique(s) == \A i, j \in DOMAIN s : s[i].nm = s[j].nm => i = j

(* r presents s: same declarations in order; a name is kept unless it clashes,
   and all names are different *)
Presents(r, s) ==
    /\ Len(r) = Len(s)
    /\ \A i \in DOMAIN s : r[i].d = s[i].d
NamesOk(r, s) ==
    /\ Unique(r)
    /\ Len(r) = Len(s) => \A i \in DOMAIN s : Count(s, s[i].nm) = 1 => r[i].nm = s[i].nm

Add(a, b)     == a \o b
Sub(a, b)     == SelectSeq(a, LAMBDA v : v.nm \notin Names(b))
RECURSIVE Mul(_, _)
Mul(a, n)     == IF n <= 1 THEN a ELSE Mul(a, n - 1) \o a
Pick(a, idx)  == [k \in DOMAIN idx |-> a[idx[k]]]
RECURSIVE KeepIdx(_, _, _)
KeepIdx(a, K, i) == IF i > Len(a) THEN <<>>
                    ELSE (IF i \in K THEN <<a[i]>> ELSE <<>>) \o KeepIdx(a, K, i + 1)
Keep(a, K)    == KeepIdx(a, K, 1)
Filter(a, K, inv) == IF inv THEN Keep(a, (DOMAIN a) \ K) ELSE Keep(a, K)
Drop(a, i)    == Keep(a, (DOMAIN a) \ {i})
Put(a, i, v)  == [a EXCEPT ![i] = v]
\* variables of b replace those of the same name in a, the others are appended
Update(a, b)  ==
    [i \in DOMAIN a |->
        IF a[i].nm \in Names(b) THEN CHOOSE v \in Rng(b) : v.nm = a[i].nm ELSE a[i]]
    \o SelectSeq(b, LAMBDA v : v.nm \notin Names(a))
\* several positions are assigned at once
Puts(a, idx, vs) == [i \in DOMAIN a |-> IF i \in Rng(idx) THEN vs[CHOOSE k \in DOMAIN idx : idx[k] = i] ELSE a[i]]
\* n variables of one declaration in a space of one kind: the name is a prefix unless n = 1
Family(nm, d, n) == [i \in 1..n |-> [nm |-> IF n = 1 THEN nm ELSE nm \o ToString(i - 1), d |-> d]]
RECURSIVE Expand(_, _)
Expand(es, declname) == IF es = <<>> THEN <<>>
                        ELSE [i \in 1..es[1].n |-> [nm |-> declname[es[1].d], d |-> es[1].d]] \o Expand(Tail(es), declname)
\* spaces are equal iff they consist of the same variables; a space contains a variable iff it is one of them
Equal(a, b) == Rng(a) = Rng(b)
Contains(a, b) == Rng(b) \subseteq Rng(a)
Rename(a, nms) == [i \in DOMAIN a |-> [a[i] EXCEPT !.nm = nms[i]]]

(* one way to make the names unique: append the smallest free numbers *)
RECURSIVE Fresh(_, _, _)
Fresh(base, k, taken) == IF (base \o ToString(k)) \in taken THEN Fresh(base, k + 1, taken)
                         ELSE base \o ToString(k)
RECURSIVE Norm1(_, _, _)
Norm1(s, i, taken) ==
    IF i > Len(s) THEN <<>>
    ELSE LET n == IF Count(s, s[i].nm) = 1 THEN s[i].nm ELSE Fresh(s[i].nm, 0, taken)
         IN <<[s[i] EXCEPT !.nm = n]>> \o Norm1(s, i + 1, taken \cup {n})
Norm(s) == Norm1(s, 1, Names(s))

(* the result of an operation on registers R (target o.t), before renaming   *)
Result(R, o, declname) ==
    CASE o.op = "new"    -> [i \in DOMAIN o.ds |-> [nm |-> declname[o.ds[i]], d |-> o.ds[i]]]
      [] o.op = "add"    -> Add(R[o.a], R[o.b])
      [] o.op = "concat" -> Add(R[o.a], R[o.b])
      [] o.op = "concat3" -> Add(Add(R[o.a], R[o.b]), R[o.c])
      [] o.op = "sub"    -> Sub(R[o.a], R[o.b])
      [] o.op = "mul"    -> Mul(R[o.a], o.n)
      [] o.op = "pick"   -> Pick(R[o.a], o.idx)
      [] o.op = "filter" -> Filter(R[o.a], Rng(o.idx), o.inv)
      [] o.op = "dict"   -> R[o.a]
      [] o.op = "json"   -> R[o.a]
      [] o.op = "clone"  -> R[o.a]
      [] o.op = "iadd"   -> Add(R[o.t], R[o.b])
      [] o.op = "isub"   -> Sub(R[o.t], R[o.b])
      [] o.op = "imul"   -> Mul(R[o.t], o.n)
      [] o.op = "update" -> Update(R[o.t], R[o.b])
      [] o.op = "remove" -> Drop(R[o.t], o.i)
      [] o.op = "pop"    -> Drop(R[o.t], o.i)
      [] o.op = "twin"   -> Put(R[o.a], o.i, [nm |-> R[o.a][o.i].nm, d |-> o.d])
      [] o.op = "set"    -> Put(R[o.t], o.i, [nm |-> declname[o.d], d |-> o.d])
      [] o.op = "puts"   -> Puts(R[o.t], o.idx, [k \in DOMAIN o.ds |-> [nm |-> declname[o.ds[k]], d |-> o.ds[k]]])
      [] o.op = "fam"    -> Family(o.nm, o.d, o.n)
      [] o.op = "expand" -> Expand(o.es, declname)
      [] o.op = "rename" -> Rename(R[o.t], o.nms)
=============================================================================
