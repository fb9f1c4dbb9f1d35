---------------------------- MODULE BoxPenaltyGen ----------------------------
(* Cases, and the laws of the definitions on all of them. *)
EXTENDS BoxPenalty, Json
CONSTANTS Mode, Los, Widths, Xs, D, Rows, Hs, Gs, Ts
VARIABLES c, done
vars == <<c, done>>

Bounds == {<<l, l + w>> : l \in Los, w \in Widths} \cup {<<-INF, 3>>, <<-3, INF>>, <<-INF, INF>>}
Pars == [t : Ts, c : {1, 2, 3}, alpha : {1, 2}, beta2 : {2, 3, 4}, eps : {0, 2, 5}, mn : BOOLEAN]
Default == [t |-> 1, c |-> 1, alpha |-> 1, beta2 |-> 3, eps |-> 2, mn |-> TRUE]

Init == /\ done = FALSE
        /\ c = IF Mode = "box" THEN [x |-> <<>>, lo |-> <<>>, hi |-> <<>>]
               ELSE [rows |-> <<>>, p |-> Default]
AddCoord == /\ Mode = "box" /\ ~done /\ Len(c.x) < D
            /\ \E b \in Bounds : \E x \in Xs :
                 c' = [x |-> Append(c.x, x), lo |-> Append(c.lo, b[1]), hi |-> Append(c.hi, b[2])]
            /\ UNCHANGED done
SetPar == /\ Mode = "pen" /\ ~done /\ c.rows = <<>>
          /\ \E p \in Pars : c' = [c EXCEPT !.p = p]
          /\ UNCHANGED done
\* all rows have the same numbers of constraints
AddRow == /\ Mode = "pen" /\ ~done /\ Len(c.rows) < Rows
          /\ \E nh \in 0..2 : \E ng \in 0..2 :
               /\ nh + ng > 0
               /\ (c.rows # <<>> => nh = Len(c.rows[1].h) /\ ng = Len(c.rows[1].g))
               /\ \E h \in [1..nh -> Hs] : \E g \in [1..ng -> Gs] :
                    c' = [c EXCEPT !.rows = Append(@, [h |-> h, g |-> g])]
          /\ UNCHANGED done
Full == IF Mode = "box" THEN Len(c.x) = D ELSE Len(c.rows) = Rows
Emit == /\ Full /\ ~done
        /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT(<<"@CASE", ToJson(c)>>)
Spec == Init /\ [][AddCoord \/ SetPar \/ AddRow \/ Emit]_vars

BoxLaws == Mode = "box" =>
    LET y == Reflect(c.x, c.lo, c.hi) IN
    \A k \in DOMAIN c.x :
        IF c.lo[k] <= -INF \/ c.hi[k] >= INF THEN y[k] = c.x[k]
        ELSE /\ y[k] >= c.lo[k] /\ y[k] <= c.hi[k]
             /\ y[k] = Mirror(c.x[k], c.lo[k], c.hi[k])
             /\ (c.x[k] >= c.lo[k] /\ c.x[k] <= c.hi[k] => y[k] = c.x[k])
             /\ Reflect1(y[k], c.lo[k], c.hi[k]) = y[k]
PenLaws == Mode = "pen" =>
    \A r \in DOMAIN c.rows :
        LET v == Penalty(c.rows[r], c.p) IN
        /\ (v = 0) <=> Ok(c.rows[r], c.p)
        /\ v # 0 => (v > 0) = c.p.mn
        /\ Abs(Penalty(c.rows[r], [c.p EXCEPT !.t = @ + 1])) >= Abs(v)
        /\ (v # 0 => Abs(Penalty(c.rows[r], [c.p EXCEPT !.t = @ + 1])) > Abs(v))
=============================================================================
