------------------------------ MODULE ReducedGen ------------------------------
EXTENDS Reduced, Json
CONSTANTS Mode, D, Zs, Cs, Ns, Ys, Rounds
VARIABLES c, done
vars == <<c, done>>
Boxes == {<<-2, 1>>, <<0, 3>>}

Init == /\ done = FALSE
        /\ CASE Mode = "pen" -> c = [z |-> <<>>, comp |-> <<>>, c |-> <<>>, lo |-> <<>>, hi |-> <<>>]
             [] Mode = "lin" -> c = [X |-> <<>>, ys |-> <<>>, mn |-> TRUE, n |-> 0]
             [] OTHER -> c = [mn |-> TRUE, nc |-> "none", first |-> <<>>, rest |-> <<>>, n |-> 0]

(* penalized criterion *)
Box == /\ Mode = "pen" /\ ~done /\ Len(c.lo) < D
       /\ \E b \in Boxes : \E o \in Cs :
            c' = [c EXCEPT !.lo = Append(@, b[1]), !.hi = Append(@, b[2]), !.c = Append(@, o)]
       /\ UNCHANGED done
Comp == /\ Mode = "pen" /\ ~done /\ Len(c.lo) = D /\ Len(c.comp) < D
        /\ \E i \in 1..D : \E s \in {-1, 1} : \E z \in Zs :
             /\ \A j \in DOMAIN c.comp : Abs(c.comp[j]) # i
             /\ c' = [c EXCEPT !.comp = Append(@, s * i), !.z = Append(@, z)]
        /\ UNCHANGED done

(* the linear map *)
Start == /\ Mode = "lin" /\ ~done /\ c.n = 0
         /\ \E n \in Ns : \E mn \in BOOLEAN : c' = [c EXCEPT !.n = n, !.mn = mn]
         /\ UNCHANGED done
Point == /\ Mode = "lin" /\ ~done /\ Len(c.X) < c.n
         /\ \E x \in [1..D -> Zs] : \E y \in Ys : c' = [c EXCEPT !.X = Append(@, x), !.ys = Append(@, y)]
         /\ UNCHANGED done

(* a history: the values of the first report and of the later ones *)
Begin == /\ Mode = "hist" /\ ~done /\ c.n = 0
         /\ \E n \in Ns : \E mn \in BOOLEAN : \E nc \in {"none", "one", "two", "all", "most"} :
              c' = [c EXCEPT !.n = n, !.mn = mn, !.nc = nc]
         /\ UNCHANGED done
First == /\ Mode = "hist" /\ ~done /\ c.n > 0 /\ Len(c.first) < c.n
         /\ \E y \in (IF Len(c.first) < 3 THEN Ys ELSE Ys \cup {NAN}) : c' = [c EXCEPT !.first = Append(@, y)]
         /\ UNCHANGED done
Later == /\ Mode = "hist" /\ ~done /\ c.n > 0 /\ Len(c.first) = c.n /\ Len(c.rest) < Rounds
         /\ \E y \in Ys \cup {NAN} : c' = [c EXCEPT !.rest = Append(@, y)]
         /\ UNCHANGED done

Full == CASE Mode = "pen" -> Len(c.comp) > 0
          [] Mode = "lin" -> c.n > 0 /\ Len(c.X) = c.n
          [] OTHER -> Len(c.rest) = Rounds
Emit == /\ Full /\ ~done
        /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT(<<"@CASE", ToJson(c)>>)
Spec == Init /\ [][Box \/ Comp \/ Start \/ Point \/ Begin \/ First \/ Later \/ Emit]_vars

(* laws of the definitions *)
PenLaws == Mode = "pen" /\ Len(c.lo) = D =>
    LET x == Back(c.z, c.comp, c.c)
        T(z) == Total(Back(z, c.comp, c.c), c.lo, c.hi)
    IN /\ (T(c.z) = 0) <=> (\A i \in 1..D : x[i] >= c.lo[i] /\ x[i] <= c.hi[i])
       /\ T(c.z) >= 0
       \* a unit step along the slope removes that much of the excess
       /\ \A j \in DOMAIN c.z :
            LET s == Slope(x, c.lo, c.hi, c.comp)[j]
            IN s # 0 => T([c.z EXCEPT ![j] = @ + s]) = T(c.z) - 1
LinLaws == Mode = "lin" /\ Len(c.X) > 1 =>
    /\ \A i \in DOMAIN c.ys : Weight(c.ys, c.mn, i) >= 0
    /\ \A i \in DOMAIN c.ys : \A k \in DOMAIN c.ys :
         (IF c.mn THEN c.ys[i] < c.ys[k] ELSE c.ys[i] > c.ys[k]) => Weight(c.ys, c.mn, i) > Weight(c.ys, c.mn, k)
    /\ \A i \in DOMAIN c.ys : Weight(c.ys, c.mn, i) = Weight([k \in DOMAIN c.ys |-> -c.ys[k]], ~c.mn, i)
    /\ \A i \in DOMAIN c.ys : Weight(c.ys, c.mn, i) = Weight([k \in DOMAIN c.ys |-> 3 * c.ys[k] + 5], c.mn, i)
=============================================================================
