------------------------------ MODULE SamplingGen ------------------------------
(* Cases: a space is a sequence of pool entries; a request has a size, a      *)
(* method and constraints.  Laws of rounding and admissibility in small scope.*)
EXTENDS Sampling, Json
CONSTANTS Mode, Pool, NVar, Ns, Methods, ConsSet, Los, Widths, Prs, MinV
VARIABLES c, done
vars == <<c, done>>
Init == done = FALSE /\ c = IF Mode = "sample" THEN [ids |-> <<>>, n |-> 0] ELSE [lo |-> 0, hi |-> 0, pr |-> 0, v |-> 0]
AddVar == /\ Mode = "sample" /\ ~done /\ c.n = 0 /\ Len(c.ids) < NVar
          /\ \E p \in Pool : c' = [c EXCEPT !.ids = Append(@, p)]
          /\ UNCHANGED done
Request == /\ Mode = "sample" /\ ~done /\ Len(c.ids) >= MinV /\ c.n = 0
           /\ \E n \in Ns : \E m \in Methods : \E k \in ConsSet :
                c' = [ids |-> c.ids, n |-> n, m |-> m, cons |-> k]
           /\ UNCHANGED done
PickRound == /\ Mode = "round" /\ ~done /\ c.hi = 0
             /\ \E lo \in Los : \E w \in Widths : \E p \in Prs : \E v \in lo..(lo + w) :
                  c' = [lo |-> lo, hi |-> lo + w, pr |-> p, v |-> v]
             /\ UNCHANGED done
Emit == /\ ~done /\ (IF Mode = "sample" THEN c.n > 0 ELSE c.hi # 0)
        /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT(<<"@CASE", ToJson(c)>>)
Spec == Init /\ [][AddVar \/ Request \/ PickRound \/ Emit]_vars

RoundLaws == (Mode = "round" /\ c.hi # 0) =>
    LET d == [k |-> "real", lo |-> c.lo, hi |-> c.hi, st |-> 1, pr |-> c.pr, nl |-> 0]
        r == Round(c.v, d)
        e == [t |-> "float", a |-> r, b |-> 0]
        dist == IF r > c.v THEN r - c.v ELSE c.v - r
    IN /\ InVar(d, e)
       /\ 2 * dist <= c.pr
       /\ Round(r, d) = r
IntLaws == \A lo \in -3..2 : \A w \in 1..6 : \A st \in 1..4 :
    LET d == [k |-> "int", lo |-> lo, hi |-> lo + w, st |-> st, pr |-> 0, nl |-> 0] IN
    /\ Values(d) = {v \in (lo - 5)..(lo + w + 5) : InVar(d, [t |-> "int", a |-> v, b |-> 0])}
    /\ Values(d) = {v \in (lo - 5)..(lo + w + 5) : InRange(d, v, 0)}
=============================================================================
