--------------------------- MODULE AcquisitionTrace ---------------------------
(* Judges recorded values of the real criteria.                               *)
EXTENDS Acquisition, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t
If(b, c) == IF b THEN {} ELSE {c}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, abs, rel) == Abs(x - y) <= abs + (IF Abs(y) > 0 THEN Abs(y) \div rel ELSE 0)

\* v: [r |-> rank of the value, neg |-> negative, gt1 |-> above one, e |-> scaled value, ok |-> a finite number]
LatBad(r) ==
    LET Le(x, y) == x <= y
        N == DOMAIN r.q
        c == r.crit
    IN If(\A i \in N : r.v[i].ok, "P11.error")
       \cup (IF Improving(c.f) THEN If(\A i \in N : ~r.v[i].neg, "P11.nonneg") ELSE {})
       \cup (IF Bounded(c.f) THEN If(\A i \in N : ~r.v[i].gt1, "P11.unit") ELSE {})
       \cup {"P11." \o l : l \in UNION {Laws(c, r.q[i], r.q[j], r.v[i].r, r.v[j].r, Le) : i \in N, j \in N}}
       \cup If(\A i \in N : Defined(c, r.q[i]) =>
                  Near(r.v[i].e, Val(c, r.q[i]), IF c.f = "UCB" THEN 0 ELSE 12, IF c.f = "MGFI" THEN 150 ELSE IF c.f = "MGFS" THEN 40 ELSE 1000), "P11.formula")
       \cup If(r.pure, "P11.pure")

GradBad(r) ==
    If(r.exc = "", "P11.error")
    \cup If(r.same, "P11.value")
    \cup If(\A k \in DOMAIN r.fd : Abs(r.fd[k] - r.gr[k]) <= 60, "P11.gradient")

EhviBad(r) ==
    LET S == {r.ys[i] : i \in DOMAIN r.ys} IN
    If(r.exc = "", "P11.error")
    \cup If(r.exc # "" \/ Near(r.tiny, 1000 * HVI(S, r.mu, r.ref), 20, 200), "P11.hvi")
    \cup If(r.exc # "" \/ Near(r.one, EHV(S, r.mu, r.ref), 2000, 1000), "P11.ehvi")
    \cup If(\A k \in DOMAIN r.up : r.up[k], "P11.mean")
    \cup If(r.nonneg, "P11.nonneg")
    \cup If(r.order, "P11.order")

Bads(r) == CASE r.k = "lat" -> LatBad(r) [] r.k = "grad" -> GradBad(r) [] OTHER -> EhviBad(r)
Init == t = 0
Step == /\ t < Len(Traces)
        /\ t' = t + 1
        /\ \A c \in Bads(Traces[t + 1]) : PrintT(<<"@BAD", Traces[t + 1].tid, 1, c>>)
        /\ PrintT(<<"@DONE", Traces[t + 1].tid>>)
Spec == Init /\ [][Step]_t
=============================================================================
