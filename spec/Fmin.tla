--------------------------------- MODULE Fmin ---------------------------------
(* The function interface.  A task is [init |-> "none" | "num" | "pts" | "vals",
   n0 |-> initial points, npt |-> batch size, max |-> budget, tgt |-> target].
   It evaluates supplied points without values once, then runs iterations until
   the budget is used up or a value better than the target is known.
   A call is [id |-> point, y |-> value code]; codes from 900000 on are failed
   evaluations.                                                              *)
EXTENDS Integers, Sequences, FiniteSets
Fin(y) == y < 900000
NoTarget == -900000
Warm(c) == c.init \in {"pts", "vals"}
(* the initial design is drawn (again) as long as no value is known *)
Size(c, prev) == IF \E k \in DOMAIN prev : Fin(prev[k]) THEN c.npt ELSE c.n0
Hit(c, ys) == c.tgt # NoTarget /\ \E k \in DOMAIN ys : Fin(ys[k]) /\ ys[k] < c.tgt
Stops(c, evals, ys) == evals >= c.max \/ Hit(c, ys)
MinOf(ys) == LET F == {ys[k] : k \in {j \in DOMAIN ys : Fin(ys[j])}}
             IN CHOOSE v \in F : \A w \in F : v <= w
AnyFin(ys) == \E k \in DOMAIN ys : Fin(ys[k])
AllSame(ys) == Len(ys) > 5 /\ Cardinality({ys[k] : k \in {j \in DOMAIN ys : Fin(ys[j])}}) <= 1

RECURSIVE Sum(_, _)
Sum(b, i) == IF i = 0 THEN 0 ELSE Sum(b, i - 1) + b[i]
Upto(wys, ys, b, i) == wys \o SubSeq(ys, 1, Sum(b, i))

(* requirement on a finished run: wys = values known beforehand (supplied points),
   ys = values of the evaluations made by the iterations, b = sizes of the batches *)
Batches(c, wys, ys, b) == \A i \in DOMAIN b : b[i] = Size(c, Upto(wys, ys, b, i - 1))
Ends(c, wys, ys, b) ==
    /\ Stops(c, Len(ys), wys \o ys)
    /\ \A i \in 0..(Len(b) - 1) : ~Stops(c, Sum(b, i), Upto(wys, ys, b, i))
=============================================================================
