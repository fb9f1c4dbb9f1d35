--------------------------- MODULE InterleaveTrace ---------------------------
(***************************************************************************)
(* Judges interleaved runs.  solo[w] is the sequence of observations of    *)
(* optimizer w running alone (from a different state of the generator),    *)
(* again[w] the same in another process (empty if not done).  Each event   *)
(* carries the observation, digests of the settings of both optimizers     *)
(* after it (set[w], 0 before construction), and the state of the random   *)
(* generator before and after.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
vars == <<t, i>>
Tr == Traces[t]
If(b, c) == IF b THEN {} ELSE {c}
Pos(j, w) == Cardinality({m \in 1..j : Tr.ev[m].w = w})
Prev(j) == IF j = 1 THEN <<0, 0>> ELSE Tr.ev[j - 1].set
Pure == {"slice", "query", "space", "filter", "arith"}

Bads(j) ==
    LET e == Tr.ev[j] IN
    If(\A w \in 1..2 : w # e.w => e.set[w] = Prev(j)[w], "P16.settings")
    \cup If(e.args, "P16.caller")
    \cup (IF e.w > 0
          THEN If(Tr.solo[e.w][Pos(j, e.w)] = e.obs, "P16.reproduce")
               \cup If(Tr.again[e.w] = <<>> \/ Tr.again[e.w][Pos(j, e.w)] = e.obs, "P16.process")
          ELSE IF e.k \in Pure THEN If(e.r0 = e.r1, "P16.generator")
          ELSE IF e.k = "seeded" THEN If(e.same, "P16.seeded")
          ELSE {})
    \* drawing from two different states of the generator leads to two different states
    \cup If(e.probe = <<>> \/ e.probe[1] # e.probe[2], "P16.reset")
    \cup If(e.redraw, "P16.redraw")

Init == t \in 1..Len(Traces) /\ i = 0
Step == /\ i < Len(Tr.ev)
        /\ i' = i + 1
        /\ \A c \in Bads(i + 1) : PrintT(<<"@BAD", Tr.tid, i + 1, c>>)
        /\ UNCHANGED t
Done == /\ i = Len(Tr.ev)
        /\ PrintT(<<"@DONE", Tr.tid>>)
        /\ i' = i + 1
        /\ UNCHANGED t
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
