-------------------------------- MODULE Inner --------------------------------
(* An inner optimizer: it evaluates points one by one and remembers the best
   value; values are ranks (larger rank = larger value).                     *)
EXTENDS ATCore
Ahead(mn, a, b) == IF mn THEN a < b ELSE a > b
RECURSIVE BestOf(_, _)
BestOf(mn, vs) == IF Len(vs) = 1 THEN vs[1]
                  ELSE LET b == BestOf(mn, SubSeq(vs, 1, Len(vs) - 1)) v == vs[Len(vs)]
                       IN IF Ahead(mn, v, b) THEN v ELSE b
AdmPoint(space, p) == Len(p) = Len(space) /\ \A i \in DOMAIN space : InVar(space[i], p[i])
Same(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : p[i].q = q[i].q
=============================================================================
