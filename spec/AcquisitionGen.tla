---------------------------- MODULE AcquisitionGen ----------------------------
(* Cases: a lattice of queries per criterion ("lat"), local linear models for
   gradients ("grad"), fronts and predictions for the expected hypervolume
   improvement ("ehvi").  The laws are checked on the defining formulas.     *)
EXTENDS Acquisition, Json
CONSTANTS Mode, Ms, Ss, Pls, Pars, D, NPts, YMax
VARIABLES c, done
vars == <<c, done>>

Queries == [m : Ms, s : Ss, pl : Pls, mn : BOOLEAN]
Crits == [f : Criteria, par : Pars]
GradBase == [f : Criteria, par : Pars, mn : BOOLEAN, pl : Pls, a0 : Ms, b0 : Ss]

Init == /\ done = FALSE
        /\ CASE Mode = "lat" -> c = [k |-> "lat", crit |-> [f |-> "UCB", par |-> 1], q |-> <<>>]
             [] Mode = "grad" -> c = [k |-> "none"]
             [] Mode = "ehvi" -> c = [k |-> "ehvi", ys |-> <<>>, ref |-> <<>>, mu |-> <<>>]
PickLat == /\ Mode = "lat" /\ ~done /\ c.q = <<>>
           /\ \E x \in Crits : \E u \in Queries : c' = [c EXCEPT !.crit = x, !.q = <<u>>]
           /\ UNCHANGED done
PickLat2 == /\ Mode = "lat" /\ ~done /\ Len(c.q) = 1
            /\ \E u \in Queries : c' = [c EXCEPT !.q = Append(@, u)]
            /\ UNCHANGED done
PickGrad == /\ Mode = "grad" /\ c.k = "none"
            /\ \E x \in GradBase : c' = [k |-> "grad", x |-> x, a |-> <<>>, b |-> <<>>]
            /\ UNCHANGED done
AddSlope == /\ c.k = "grad" /\ Len(c.a) < D /\ ~done
            /\ \E a \in {-3, -1, 0, 1, 2} : \E b \in {-2, -1, 0, 1, 2} :
                 c' = [c EXCEPT !.a = Append(@, a), !.b = Append(@, b)]
            /\ UNCHANGED done
AddY == /\ Mode = "ehvi" /\ Len(c.ys) < NPts /\ ~done
        /\ \E v \in [1..D -> 0..YMax] : c' = [c EXCEPT !.ys = Append(@, v)]
        /\ UNCHANGED done
SetRef == /\ Mode = "ehvi" /\ Len(c.ys) = NPts /\ c.ref = <<>> /\ ~done
          /\ \E v \in [1..D -> {-1, 0, 1}] :
               /\ \E i \in DOMAIN c.ys : \A k \in 1..D : c.ys[i][k] > v[k]
               /\ c' = [c EXCEPT !.ref = v]
          /\ UNCHANGED done
SetMu == /\ Mode = "ehvi" /\ c.ref # <<>> /\ c.mu = <<>> /\ ~done
         /\ \E v \in [1..D -> -1..(YMax + 1)] : c' = [c EXCEPT !.mu = v]
         /\ UNCHANGED done
Full == CASE c.k = "lat" -> FALSE [] c.k = "grad" -> Len(c.a) = D [] c.k = "ehvi" -> c.mu # <<>> [] OTHER -> FALSE
Emit == /\ Full /\ ~done
        /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT(<<"@CASE", ToJson(c)>>)
Spec == Init /\ [][PickLat \/ PickLat2 \/ PickGrad \/ AddSlope \/ AddY \/ SetRef \/ SetMu \/ Emit]_vars

\* the formulas obey the laws, up to the rounding of the tables
Slack(f) == IF f = "UCB" THEN 0 ELSE IF f = "MGFI" THEN 3 ELSE 60
LawsHold ==
    (c.k = "lat" /\ Len(c.q) = 2) =>
        LET a == c.q[1] b == c.q[2]
            Le(x, y) == x <= y + Slack(c.crit.f)
        IN (Defined(c.crit, a) /\ Defined(c.crit, b)) =>
             Laws(c.crit, a, b, Val(c.crit, a), Val(c.crit, b), Le) = {}
SignHold == (c.k = "lat" /\ Len(c.q) = 1 /\ Improving(c.crit.f) /\ Defined(c.crit, c.q[1])) =>
               /\ Val(c.crit, c.q[1]) >= -60
               /\ Bounded(c.crit.f) => Val(c.crit, c.q[1]) \in 0..1000000
HviHold == (c.k = "ehvi" /\ c.mu # <<>>) =>
    LET S == {c.ys[i] : i \in DOMAIN c.ys}
        h == HVI(S, c.mu, c.ref)
    IN /\ h >= 0
       /\ (h = 0) <=> ((\E v \in S : GEq(v, c.mu)) \/ (\E k \in 1..D : c.mu[k] <= c.ref[k]))
       /\ EHV(S, c.mu, c.ref) >= 1000000 * h - 5000        \* uncertainty adds to the expectation (up to rounding)
       /\ \A k \in 1..D : HVI(S, [c.mu EXCEPT ![k] = @ + 1], c.ref) >= h
=============================================================================
