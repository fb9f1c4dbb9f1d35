------------------------------- MODULE InnerGen -------------------------------
(* Generator of the runs of the inner optimizers: every combination of
   algorithm, space, objective, direction and budget, options drawn.  As a
   state machine, a run evaluates points and keeps the best; the design check
   shows that returning the remembered best meets the requirements.          *)
EXTENDS Inner, Json
CONSTANTS Algs, Reals, Others, Objs, Budgets, Opts, Emit, Vals, MaxLen
VARIABLES c, vs, best, done
vars == <<c, vs, best, done>>
Spaces(a) == IF a = "MIES" THEN Reals \cup Others ELSE Reals
Init == /\ done = FALSE /\ vs = <<>> /\ best = 0
        /\ \E a \in Algs : \E sp \in Spaces(a) : \E o \in Objs : \E m \in BOOLEAN : \E b \in Budgets : \E p \in Opts :
              c = [alg |-> a, space |-> sp, obj |-> o, mn |-> m, budget |-> b, opt |-> p]
Out == /\ Emit /\ ~done /\ done' = TRUE /\ UNCHANGED <<c, vs, best>>
         /\ PrintT(<<"@CASE", ToJson(c)>>)
Eval == /\ ~Emit /\ ~done /\ Len(vs) < MaxLen
        /\ \E v \in Vals : /\ vs' = Append(vs, v)
                           /\ best' = IF vs = <<>> \/ Ahead(c.mn, v, best) THEN v ELSE best
        /\ UNCHANGED <<c, done>>
Spec == Init /\ [][Out \/ Eval]_vars
Keeps == vs # <<>> => best = BestOf(c.mn, vs)
Bound == vs # <<>> => \A i \in DOMAIN vs : ~Ahead(c.mn, vs[i], BestOf(c.mn, vs))
=============================================================================
