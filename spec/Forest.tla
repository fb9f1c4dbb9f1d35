------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* A regression surrogate over categorical variables, trained with many    *)
(* replicates of every point: what its predictions must satisfy.           *)
(* A point is a pair of levels; y[p] is the (tenfold) value of point p,    *)
(* batches are the queries, b[k][j] the point queried at position j, and   *)
(* r[k][j] = [v |-> prediction, s |-> uncertainty] the recorded answers.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NPoints(c) == c.na * c.nb
Asked(b) == {<<k, j>> : k \in DOMAIN b, j \in UNION {DOMAIN b[i] : i \in DOMAIN b}} 
Valid(b) == {a \in Asked(b) : a[2] \in DOMAIN b[a[1]]}

(* the answer for a point does not depend on the batch it is asked in *)
BatchFree(b, r) == \A a1, a2 \in Valid(b) : b[a1[1]][a1[2]] = b[a2[1]][a2[2]] => r[a1[1]][a1[2]] = r[a2[1]][a2[2]]
(* the surrogate tells points with different observed values apart, in their order *)
Faithful(b, r, y) == \A a1, a2 \in Valid(b) :
                       y[b[a1[1]][a1[2]]] < y[b[a2[1]][a2[2]]] => r[a1[1]][a1[2]].v < r[a2[1]][a2[2]].v
=============================================================================
