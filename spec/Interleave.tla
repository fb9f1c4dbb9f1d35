------------------------------ MODULE Interleave ------------------------------
(***************************************************************************)
(* Several optimizers, each with its own program, and other users of the   *)
(* library ("noise") in one process.  What an optimizer does is a function *)
(* of its own program alone: the design model carries, per optimizer, the  *)
(* private state (position in its program) and the settings; the random    *)
(* generator is shared, so its state is part of the model:                 *)
(*   draws advance it, pure operations keep it, only an explicit seed sets *)
(*   it to a constant.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Len1, Len2,      \* lengths of the programs
          Noises,          \* kinds of noise
          MaxNoise,
          Emit

VARIABLES pos, rng, seed, log, done, used, last
vars == <<pos, rng, seed, log, done, used, last>>
Pure == {"slice", "query", "space", "filter", "arith"}      \* operations that draw nothing
Draws == {"sample", "other"}
Seeds == {"seeded"}

\* The state of the generator is the sequence of what happened since the last explicit seed
Init == /\ pos = <<0, 0>> /\ rng = <<>> /\ seed = 0 /\ log = <<>> /\ done = FALSE /\ used = 0 /\ last = "init"
Size(w) == IF w = 1 THEN Len1 ELSE Len2
Go(w) == /\ ~done /\ pos[w] < Size(w)
         /\ pos' = [pos EXCEPT ![w] = @ + 1]
         /\ IF pos[w] = 0 THEN rng' = <<>> /\ seed' = w     \* construction with a seed
            ELSE rng' = Append(rng, w) /\ UNCHANGED seed
         /\ log' = Append(log, [w |-> w, k |-> "op"])
         /\ last' = "op"
         /\ UNCHANGED <<done, used>>
Noise(k) == /\ ~done /\ used < MaxNoise
            /\ used' = used + 1
            /\ IF k \in Seeds THEN rng' = <<>> /\ seed' = 9
               ELSE IF k \in Draws THEN rng' = Append(rng, 9) /\ UNCHANGED seed
               ELSE UNCHANGED <<rng, seed>>
            /\ log' = Append(log, [w |-> 0, k |-> k])
            /\ last' = k
            /\ UNCHANGED <<pos, done>>
Fin == /\ ~done /\ \A w \in 1..2 : pos[w] = Size(w)
       /\ done' = TRUE
       /\ IF Emit THEN PrintT(<<"@CASE", ToJson(log)>>) ELSE TRUE
       /\ UNCHANGED <<pos, rng, seed, log, used, last>>
Next == (\E w \in 1..2 : Go(w)) \/ (\E k \in Noises : Noise(k)) \/ Fin
Spec == Init /\ [][Next]_vars

(* only explicit seeds and constructions reset the generator; pure operations keep it;
   two different generator states never become equal by drawing                      *)
ResetOnlyBySeed == [][(rng' = <<>> /\ rng # <<>>) => last' \in Seeds \/ (last' = "op" /\ \E w \in 1..2 : pos[w] = 0 /\ pos'[w] = 1)]_vars
PureKeeps == [][last' \in Pure /\ used' > used => rng' = rng /\ seed' = seed]_vars
Local == [][\A w \in 1..2 : pos'[w] # pos[w] => \A v \in 1..2 : v # w => pos'[v] = pos[v]]_vars
View == <<pos, rng, seed, done, used, last>>
=============================================================================
