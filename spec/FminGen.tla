------------------------------- MODULE FminGen -------------------------------
(* Tasks and value sequences; as a state machine, a run of the interface.     *)
EXTENDS Fmin, Json, TLC
CONSTANTS N0s, Npts, Maxs, Tgts, Ys, Emit
VARIABLES c, w, ys, b, left, st
vars == <<c, w, ys, b, left, st>>
Init == /\ \E i \in {"none", "num", "pts", "vals"} : \E n \in N0s : \E m \in Npts : \E x \in Maxs : \E t \in Tgts :
             c = [init |-> i, n0 |-> n, npt |-> m, max |-> x, tgt |-> t]
        /\ w = <<>> /\ ys = <<>> /\ b = <<>> /\ left = 0 /\ st = "warm"
Known == /\ st = "warm"
         /\ IF Warm(c) /\ Len(w) < c.n0
            THEN \E y \in {v \in Ys : Fin(v)} : w' = Append(w, y) /\ UNCHANGED <<ys, b, left, st>>
            ELSE st' = (IF Stops(c, 0, w) THEN "end" ELSE "ask") /\ UNCHANGED <<w, ys, b, left>>
         /\ UNCHANGED c
Ask == /\ st = "ask"
       /\ left' = Size(c, w \o ys) /\ b' = Append(b, left') /\ st' = "run"
       /\ UNCHANGED <<c, w, ys>>
Evaluate == /\ st = "run" /\ left > 0
            /\ \E y \in Ys : ys' = Append(ys, y)
            /\ left' = left - 1
            /\ UNCHANGED <<c, w, b, st>>
Tell == /\ st = "run" /\ left = 0
        /\ st' = IF Stops(c, Len(ys), w \o ys) THEN "end" ELSE "ask"
        /\ UNCHANGED <<c, w, ys, b, left>>
Out == /\ Emit /\ st = "end" /\ st' = "out" /\ UNCHANGED <<c, w, ys, b, left>>
       /\ PrintT(<<"@CASE", ToJson([c |-> c, w |-> w, ys |-> ys])>>)
Spec == Init /\ [][Known \/ Ask \/ Evaluate \/ Tell \/ Out]_vars
Overshoot == st = "end" => Len(ys) < c.max + (IF c.n0 > c.npt THEN c.n0 ELSE c.npt)
Meets == st = "end" => Batches(c, w, ys, b) /\ Ends(c, w, ys, b)
=============================================================================
