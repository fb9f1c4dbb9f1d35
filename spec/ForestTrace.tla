---------------------------- MODULE ForestTrace ----------------------------
EXTENDS Forest, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t
If(b, c) == IF b THEN {} ELSE {c}
Shape(x) == DOMAIN x.r = DOMAIN x.b /\ \A k \in DOMAIN x.b : DOMAIN x.r[k] = DOMAIN x.b[k]
Bads(x) == IF x.exc # "" THEN {"P23.predict"}
           ELSE IF ~Shape(x) THEN {"P23.shape"}
           ELSE If(BatchFree(x.b, x.r), "P23.batch") \cup If(Faithful(x.b, x.r, x.y), "P23.encode")
Init == t = 0
Step == /\ t < Len(Traces)
        /\ t' = t + 1
        /\ \A c \in Bads(Traces[t + 1]) : PrintT(<<"@BAD", Traces[t + 1].tid, 1, c>>)
        /\ PrintT(<<"@DONE", Traces[t + 1].tid>>)
Spec == Init /\ [][Step]_t
=============================================================================
