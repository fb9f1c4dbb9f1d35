----------------------------- MODULE CriteriaMC -----------------------------
(* The scheduling model: requests advance the parameter; laws of the schedules. *)
EXTENDS Criteria
CONSTANTS T0s, TFs, MaxIts, Halvings
VARIABLES c, k, cur
vars == <<c, k, cur>>
Lin == [fun : {"MGFI"}, kind : {"linear"}, base : T0s, tf : TFs, maxit : MaxIts, p : {1}, q : {1}]
\* geometric schedules whose factor is a half: base = tf * 2^maxit
Exp == {[fun |-> "MGFI", kind |-> "exp", base |-> f * (2 ^ m), tf |-> f, maxit |-> m, p |-> 1, q |-> 2] :
           f \in TFs, m \in Halvings}
Rise == {[fun |-> "MGFI", kind |-> "exp", base |-> f, tf |-> f * (2 ^ m), maxit |-> m, p |-> 2, q |-> 1] :
           f \in TFs, m \in Halvings}
Const == [fun : {"MGFI", "UCB"}, kind : {"const"}, base : T0s, tf : {0}, maxit : {0}, p : {1}, q : {1}]
Init == /\ c \in Lin \cup Exp \cup {x \in Rise : x.tf < 200000000} \cup Const
        /\ k = 0 /\ cur = c.base
Request == /\ k < c.maxit + 2
           /\ k' = k + 1
           /\ cur' = Base(c, k + 1)
           /\ UNCHANGED c
Spec == Init /\ [][Request]_vars
Starts == k = 0 => cur = c.base
Reaches == k = c.maxit /\ c.kind \in {"linear", "exp"} => cur = c.tf
Constant == c.kind = "const" => cur = c.base
Positive == cur > 0
Monotone == [][IF c.base >= c.tf THEN cur' <= cur ELSE (cur' >= cur \/ k >= c.maxit)]_vars
=============================================================================
