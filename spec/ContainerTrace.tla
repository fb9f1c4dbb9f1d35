---------------------------- MODULE ContainerTrace ----------------------------
EXTENDS Container, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, S
vars == <<t, i, S>>
If(b, c) == IF b THEN {} ELSE {c}
Tr == Traces[t]
Start(k) == IF k > Len(Traces) THEN [heap |-> <<>>, regs |-> <<>>]
            ELSE [heap |-> <<>>, regs |-> [r \in 1..Traces[k].nreg |->
                     [rows |-> <<>>, cols |-> Traces[k].cols, one |-> FALSE, k |-> Traces[k].nobj]]]
\* recorded: a register that holds nothing yet is skipped
RegBad(e, w) ==
    IF w.rows = <<>> THEN {}
    ELSE If(SameSeen(w, e.seen), "P14.aligned")
         \cup If(e.n = Len(w.rows) /\ e.dim = Len(w.cols), "P14.shape")
         \cup If(\A m \in DOMAIN e.conv : e.conv[m] = [k \in DOMAIN w.rows |-> w.rows[k].x], "P14.convert")
         \cup If(Len(e.csv) = Len(w.rows) /\ \A k \in DOMAIN e.csv : SameRow(w.rows[k], e.csv[k]), "P14.csv")
         \cup If(e.names, "P14.names")
         \cup If(\A m \in DOMAIN e.keys : Len(e.keys[m]) = Len(w.rows)
                    /\ \A k \in DOMAIN w.rows : w.rows[k].ix = "?" \/ e.keys[m][k] = w.rows[k].ix, "P14.index")
Init == t = 1 /\ i = 0 /\ S = Start(1)
Step == /\ t <= Len(Traces) /\ i < Len(Tr.ev)
        /\ i' = i + 1 /\ t' = t
        /\ S' = Do(S, Tr.ev[i + 1].o)
        /\ LET e == Tr.ev[i + 1]
               bad == If(e.exc = "", "P14.error")
                      \cup UNION {RegBad(e.regs[r], Seen(S', S'.regs[r])) : r \in DOMAIN e.regs}
           IN \A c \in bad : PrintT(<<"@BAD", Tr.tid, i + 1, c>>)
Close == /\ t <= Len(Traces) /\ i = Len(Tr.ev)
         /\ PrintT(<<"@DONE", Tr.tid>>)
         /\ t' = t + 1 /\ i' = 0 /\ S' = Start(t + 1)
Spec == Init /\ [][Step \/ Close]_vars
=============================================================================
