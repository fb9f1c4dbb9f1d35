-------------------------------- MODULE CondBO --------------------------------
(* Design of the conditional optimizer: proposals of combinations, reports.   *)
EXTENDS Cond
CONSTANTS Space, MaxAsk, MaxSteps
VARIABLES seen, pend, evals, iters, rec
vars == <<seen, pend, evals, iters, rec>>
K == DOMAIN Space
All == Combos(Space, K)
Batches(n) == UNION {[1..m -> All] : m \in 1..n}
Init == seen = {} /\ pend = <<>> /\ evals = 0 /\ iters = 0 /\ rec = <<>>
Ask == /\ iters < MaxSteps
       /\ \E cs \in Batches(MaxAsk) : /\ BatchOK(All, seen, cs)
                                      /\ pend' = cs
                                      /\ seen' = seen \cup {cs[i] : i \in DOMAIN cs}
       /\ UNCHANGED <<evals, iters, rec>>
Tell == /\ pend # <<>>
        /\ evals' = evals + Len(pend) /\ iters' = iters + 1
        /\ rec' = rec \o pend /\ pend' = <<>>
        /\ UNCHANGED seen
Spec == Init /\ [][Ask \/ Tell]_vars
\* every combination is proposed once before any repeats: the number of distinct combinations reported
Once == Len(rec) <= Cardinality(All) /\ pend = <<>> => Cardinality({rec[i] : i \in DOMAIN rec}) <= Len(rec)
Sound == \A i \in DOMAIN rec : IsCombo(Space, K, rec[i])
Cover == Cardinality(seen) >= IF Cardinality(All) < Len(pend) THEN Cardinality(All) ELSE Len(pend)
Counts == evals = Len(rec)
=============================================================================
