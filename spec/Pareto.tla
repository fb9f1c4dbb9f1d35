------------------------------- MODULE Pareto -------------------------------
(***************************************************************************)
(* Non-domination, fronts, hypervolume and box decompositions over integer *)
(* vectors.  Maximization unless stated.  The measure of a region is       *)
(* counted in unit cells, so everything is exact.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeS(s) == {s[i] : i \in DOMAIN s}

GEq(a, b)  == \A k \in DOMAIN a : a[k] >= b[k]
Dom(a, b)  == GEq(a, b) /\ a # b                    \* a dominates b (maximization)
Neg(a)     == [k \in DOMAIN a |-> -a[k]]

Front(S)   == {v \in S : ~\E w \in S : Dom(w, v)}
FrontMin(S) == {v \in S : ~\E w \in S : Dom(v, w)}

(* layers for minimization: the sequence of sets of indices *)
RECURSIVE Layers(_, _)
Layers(ys, I) ==
    IF I = {} THEN <<>>
    ELSE LET F == {i \in I : ~\E j \in I : Dom(ys[i], ys[j])}
         IN <<F>> \o Layers(ys, I \ F)

(* a choice of indices presents the set F exactly once per distinct vector *)
OncePer(idx, ys, F) ==
    /\ {ys[i] : i \in RangeS(idx)} = F
    /\ Len(idx) = Cardinality(F)
All(idx, ys, F) == /\ RangeS(idx) = {i \in DOMAIN ys : ys[i] \in F}
                   /\ Len(idx) = Cardinality(RangeS(idx))

(* Unit cells are named by their lower corner. *)
Cells(m, lo, hi) == [1..m -> lo..(hi - 1)]
CellDominated(c, S) == \E v \in S : \A k \in DOMAIN c : v[k] >= c[k] + 1
AboveRef(c, ref) == \A k \in DOMAIN c : c[k] >= ref[k]
Min0(ref) == CHOOSE x \in RangeS(ref) : \A y \in RangeS(ref) : x <= y

HV(S, ref, top) ==
    Cardinality({c \in Cells(Len(ref), Min0(ref), top) : AboveRef(c, ref) /\ CellDominated(c, S)})

InBox(c, b) == \A k \in DOMAIN c : b.lo[k] <= c[k] /\ c[k] + 1 <= b.hi[k]
(* the boxes cover every non-dominated cell above the reference exactly once
   and no other cell; one layer of cells beyond every value represents infinity *)
Partition(boxes, S, ref, bot, top) ==
    \A c \in Cells(Len(ref), bot, top + 1) :
        Cardinality({b \in DOMAIN boxes : InBox(c, boxes[b])})
          = IF AboveRef(c, ref) /\ ~CellDominated(c, S) THEN 1 ELSE 0
=============================================================================
