--------------------------- MODULE BoxPenaltyTrace ---------------------------
EXTENDS BoxPenalty, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t
If(b, c) == IF b THEN {} ELSE {c}
Bads(r) ==
    IF r.kind = "box"
    THEN LET y == Reflect(r.x, r.lo, r.hi) IN
         If(r.exc = "", "P18.error")
         \cup UNION {If(\A k \in DOMAIN y : y[k] = r.out[j][k], "P18.reflect") : j \in DOMAIN r.out}
         \cup If(Len(r.out) = r.n, "P18.shape")
         \cup If(r.inside, "P18.inside")
    ELSE If(r.exc = "", "P18.error")
         \cup If(\A j \in DOMAIN r.out :
                   /\ Len(r.out[j]) = Len(r.rows)
                   /\ \A k \in DOMAIN r.rows : r.out[j][k] = Penalty(r.rows[k], r.p), "P18.penalty")
         \cup If(\A j \in DOMAIN r.zero : \A k \in DOMAIN r.rows : r.zero[j][k] = Ok(r.rows[k], r.p), "P18.zero")
Init == t = 0
Step == /\ t < Len(Traces)
        /\ t' = t + 1
        /\ \A c \in Bads(Traces[t + 1]) : PrintT(<<"@BAD", Traces[t + 1].tid, 1, c>>)
        /\ PrintT(<<"@DONE", Traces[t + 1].tid>>)
Spec == Init /\ [][Step]_t
=============================================================================
