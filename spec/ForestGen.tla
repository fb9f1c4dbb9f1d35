----------------------------- MODULE ForestGen -----------------------------
EXTENDS Forest, Json
CONSTANTS NAs, NBs, Ys, NBatch, MaxLen
VARIABLES c, done
vars == <<c, done>>
Init == /\ done = FALSE
        /\ \E a \in NAs : \E b \in NBs : c = [na |-> a, nb |-> b, y |-> <<>>, b |-> <<>>]
Value == /\ ~done /\ Len(c.y) < NPoints(c)
         /\ \E v \in Ys : c' = [c EXCEPT !.y = Append(@, v)]
         /\ UNCHANGED done
Open == /\ ~done /\ Len(c.y) = NPoints(c) /\ Len(c.b) < NBatch
        /\ \E p \in 1..NPoints(c) : c' = [c EXCEPT !.b = Append(@, <<p>>)]
        /\ UNCHANGED done
Extend == /\ ~done /\ c.b # <<>> /\ Len(c.b[Len(c.b)]) < MaxLen
          /\ \E p \in 1..NPoints(c) : c' = [c EXCEPT !.b[Len(c.b)] = Append(@, p)]
          /\ UNCHANGED done
Emit == /\ ~done /\ Len(c.b) = NBatch
        /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT(<<"@CASE", ToJson(c)>>)
Spec == Init /\ [][Value \/ Open \/ Extend \/ Emit]_vars

(* the requirements are satisfiable: answering with the observed values meets them *)
Ideal == LET r == [k \in DOMAIN c.b |-> [j \in DOMAIN c.b[k] |-> [v |-> c.y[c.b[k][j]], s |-> 0]]] IN
         c.b # <<>> => BatchFree(c.b, r) /\ Faithful(c.b, r, c.y)
=============================================================================
