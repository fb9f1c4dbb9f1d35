-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Evaluation of one batch by W workers: the points are handed out in      *)
(* order, the evaluations finish in any order, any of them may raise.      *)
(* Explored exhaustively for the pairing guarantee; every finished         *)
(* behaviour is also printed as a schedule which is forced upon the real   *)
(* evaluation (joblib workers) by the driver.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* size of the batch
          W,        \* workers
          Fail,     \* evaluations that may raise
          Emit      \* print the schedules

VARIABLES next, running, slot, calls, order, state, rec
vars == <<next, running, slot, calls, order, state, rec>>

F(i) == 100 + ((i * 7) % 5)       \* the value of point i: ties occur
None == 0

Init == /\ next = 1 /\ running = {} /\ order = <<>> /\ state = "eval" /\ rec = <<>>
        /\ slot = [i \in 1..N |-> None] /\ calls = [i \in 1..N |-> 0]

Start == /\ state = "eval" /\ next <= N /\ Cardinality(running) < W
         /\ running' = running \cup {next}
         /\ calls' = [calls EXCEPT ![next] = @ + 1]
         /\ next' = next + 1
         /\ UNCHANGED <<slot, order, state, rec>>

Finish(i) == /\ state = "eval" /\ i \in running
             /\ running' = running \ {i}
             /\ slot' = [slot EXCEPT ![i] = F(i)]
             /\ order' = Append(order, i)
             /\ UNCHANGED <<next, calls, state, rec>>

Raise(i) == /\ state = "eval" /\ i \in running \cap Fail
            /\ state' = "raised"
            /\ running' = {}
            /\ order' = Append(order, i)
            /\ UNCHANGED <<next, slot, calls, rec>>

Report == /\ state = "eval" /\ Len(order) = N
          /\ rec' = [i \in 1..N |-> [p |-> i, y |-> slot[i]]]
          /\ state' = "told"
          /\ UNCHANGED <<next, running, slot, calls, order>>

Out == /\ state \in {"told", "raised"}
       /\ IF Emit THEN PrintT(<<"@CASE", ToJson([order |-> order, fail |-> IF state = "raised" THEN Len(order) ELSE 0])>>) ELSE TRUE
       /\ state' = state \o "."
       /\ UNCHANGED <<next, running, slot, calls, order, rec>>

Next == Start \/ (\E i \in 1..N : Finish(i) \/ Raise(i)) \/ Report \/ Out
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* every point recorded was evaluated exactly once and carries its own value,
   whatever the order of completion; a raised batch records nothing          *)
Paired == state \in {"told", "told."} =>
            /\ Len(rec) = N
            /\ \A i \in 1..N : rec[i] = [p |-> i, y |-> F(i)] /\ calls[i] = 1
Once == \A i \in 1..N : calls[i] <= 1
Untouched == state \notin {"told", "told."} => rec = <<>>
=============================================================================
