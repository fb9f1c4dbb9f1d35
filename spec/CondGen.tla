------------------------------- MODULE CondGen -------------------------------
(* Generates condition forests with an operation on the space (Mode "space") or
   a history of the conditional optimizer (Mode "bo"); the design check
   compares the declarative and the recursive definition of the combinations. *)
EXTENDS Cond, Json, TLC, SequencesExt
CONSTANTS Mode, MinN, N, Roots, Depth, Kinds, Ops, Ns, Steps, NVals, Emit
VARIABLES S, op, keep, hist, done
vars == <<S, op, keep, hist, done>>
Init == S = <<>> /\ op = "" /\ keep = {} /\ hist = <<>> /\ done = FALSE
RECURSIVE Height(_)
Height(i) == IF S[i].p = 0 THEN 1 ELSE 1 + Height(S[i].p)
Parents == {i \in DOMAIN S : Levels(S[i].k) > 0 /\ Height(i) < Depth}
Root == /\ ~done /\ op = "" /\ Len(S) < N /\ Cardinality({i \in DOMAIN S : S[i].p = 0}) < Roots
        /\ \E k \in Kinds : S' = Append(S, [k |-> k, p |-> 0, v |-> 0])
        /\ UNCHANGED <<op, keep, hist, done>>
Child == /\ ~done /\ op = "" /\ Len(S) < N /\ Parents # {}
         /\ \E k \in Kinds : \E p \in Parents : \E v \in 1..Levels(S[p].k) :
               S' = Append(S, [k |-> k, p |-> p, v |-> v])
         /\ UNCHANGED <<op, keep, hist, done>>
Trees(K) == \A i \in DOMAIN S : S[i].p # 0 => (i \in K <=> S[i].p \in K)
Apply == /\ ~done /\ op = "" /\ Len(S) >= MinN
         /\ \E o \in Ops : \E K \in SUBSET DOMAIN S :
               /\ IF o \in {"none", "json"} THEN K = DOMAIN S
                  ELSE IF o \in {"sum", "concat", "isum"} THEN Trees(K) /\ K # {} /\ K # DOMAIN S
                  ELSE IF o \in {"remove", "pop"} THEN Closed(S, K) /\ Cardinality(K) = Len(S) - 1 /\ K # {}
                  ELSE Closed(S, K) /\ K # {}
               /\ op' = o /\ keep' = K
         /\ UNCHANGED <<S, hist, done>>
\* a history: ask for n points (0: the default) and report values (0: a failed evaluation)
Ask == /\ Mode = "bo" /\ op # "" /\ ~done /\ Len(hist) < Steps
       /\ \E n \in Ns : \E v \in 1..NVals : \E f \in 0..3 : hist' = Append(hist, [n |-> n, v |-> v, f |-> f])
       /\ UNCHANGED <<S, op, keep, done>>
Out == /\ Emit /\ ~done /\ op # "" /\ (Mode = "bo" => Len(hist) = Steps)
       /\ done' = TRUE /\ UNCHANGED <<S, op, keep, hist>>
       /\ PrintT(<<"@CASE", ToJson([S |-> S, op |-> op, keep |-> SetToSeq(keep), hist |-> hist])>>)
Spec == Init /\ [][Root \/ Child \/ Apply \/ Ask \/ Out]_vars

Agree == (op # "" /\ Closed(S, keep)) => Combos(S, keep) = Walked(S, keep)
\* every variable is active in some combination, every combination is determined by its levels
Reach == (op # "" /\ Closed(S, keep)) =>
           \A i \in keep : \E a \in Combos(S, keep) : Active(S, a, i)
=============================================================================
