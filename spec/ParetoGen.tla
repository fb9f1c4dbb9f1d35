------------------------------ MODULE ParetoGen ------------------------------
(***************************************************************************)
(* An archive that points are added to one by one.  Breadth-first search   *)
(* enumerates every sequence up to the bound and checks the laws of the    *)
(* definitions; every sequence is emitted as a case for the real code.     *)
(***************************************************************************)
EXTENDS Pareto, Json
CONSTANTS M, K, MaxN, MinN, Refs

VARIABLES ys, ref, fr, done
vars == <<ys, ref, fr, done>>
Vec == [1..M -> 0..K]

Init == ys = <<>> /\ ref \in Refs /\ fr = {} /\ done = FALSE
Add == /\ Len(ys) < MaxN /\ ~done
       /\ \E v \in Vec : /\ ys' = Append(ys, v)
                         /\ fr' = Front(fr \cup {v})        \* incremental update
       /\ UNCHANGED <<ref, done>>
Emit == /\ Len(ys) >= MinN /\ ~done
        /\ done' = TRUE /\ UNCHANGED <<ys, ref, fr>>
        /\ PrintT(<<"@CASE", ToJson([ys |-> ys, ref |-> ref, m |-> M, top |-> K])>>)
Spec == Init /\ [][Add \/ Emit]_vars

S == RangeS(ys)
FrontLaws ==
    /\ fr = Front(S)                                        \* incremental = from scratch
    /\ (S # {} => fr # {})
    /\ \A v \in fr : \A w \in fr : ~Dom(v, w)
    /\ \A v \in S : v \in fr \/ \E w \in fr : Dom(w, v)
    /\ FrontMin({Neg(v) : v \in S}) = {Neg(v) : v \in fr}   \* mirrored
LayerLaws ==
    LET L == Layers(ys, DOMAIN ys) IN
    /\ UNION RangeS(L) = DOMAIN ys
    /\ \A i \in DOMAIN L : \A j \in DOMAIN L : i # j => L[i] \cap L[j] = {}
    /\ (ys # <<>> => {ys[i] : i \in L[1]} = FrontMin(S))
    /\ \A i \in 2..Len(L) : \A x \in L[i] : \E y \in L[i - 1] : Dom(ys[x], ys[y])
HVLaws == /\ HV(S, ref, K) = HV(fr, ref, K)
          /\ (ys # <<>> => HV(S, ref, K) >= HV(RangeS(SubSeq(ys, 1, Len(ys) - 1)), ref, K))
=============================================================================
