------------------------------- MODULE Restart -------------------------------
(* The restarted maximization of an acquisition criterion.  Every restart runs
   an inner optimizer; its outcome is [f |-> value, ok |-> feasible,
   n |-> evaluations].  The bookkeeping is [left |-> evaluations left,
   wait |-> restarts without improvement, best |-> best feasible value].
   Whether a restart ending in an infeasible point consumes budget or patience
   is left open (a set of possible bookkeepings).                            *)
EXTENDS Integers, Sequences, FiniteSets
Nothing == -2000000000

Begin(B) == [left |-> B, wait |-> 0, best |-> Nothing]
Count(s, r) == [left |-> s.left - r.n,
                wait |-> IF r.f > s.best THEN 0 ELSE s.wait + 1,
                best |-> IF r.f > s.best THEN r.f ELSE s.best]
After(s, r) == IF r.ok THEN {Count(s, r)}
               ELSE {[s EXCEPT !.left = @ - a * r.n, !.wait = @ + b] : a \in {0, 1}, b \in {0, 1}}
Exhausted(s, W) == s.left <= 0 \/ s.wait >= W

RECURSIVE Books(_, _, _)
\* the possible bookkeepings after the first k of the runs
Books(B, runs, k) == IF k = 0 THEN {Begin(B)} ELSE UNION {After(s, runs[k]) : s \in Books(B, runs, k - 1)}

Oks(runs) == {i \in DOMAIN runs : runs[i].ok}
Best(runs) == IF Oks(runs) = {} THEN Nothing
              ELSE CHOOSE v \in {runs[i].f : i \in Oks(runs)} : \A i \in Oks(runs) : runs[i].f <= v
\* the runs whose point may be returned
Winners(runs) == {i \in Oks(runs) : runs[i].f = Best(runs)}

(* -------- requirements on a complete search: N restarts, patience W, budget B -------- *)
Limit(runs, N) == Len(runs) <= N /\ (N > 0 => runs # <<>>)
\* no further run was made although the search had to end, none omitted although it had to go on
NoLate(runs, B, W) == \A k \in 1..(Len(runs) - 1) : \E s \in Books(B, runs, k) : ~Exhausted(s, W)
NoEarly(runs, B, W, N) == Len(runs) = N \/ \E s \in Books(B, runs, Len(runs)) : Exhausted(s, W)
\* every run was granted what was left
Granted(runs, B) == \A k \in DOMAIN runs : \E s \in Books(B, runs, k - 1) : runs[k].b = s.left
=============================================================================
