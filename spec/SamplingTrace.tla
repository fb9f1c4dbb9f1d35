----------------------------- MODULE SamplingTrace -----------------------------
EXTENDS Sampling, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t
If(b, c) == IF b THEN {} ELSE {c}
SampleBad(r) ==
    If(r.exc = "", "P13.error")
    \cup (IF r.exc # "" THEN {} ELSE
          If(IF r.cons = "none" THEN r.rows = r.n /\ r.cols = Len(r.space)
             ELSE r.rows <= r.n /\ (r.rows = 0 \/ r.cols = Len(r.space)), "P13.count")
          \cup If(\A k \in DOMAIN r.x : RowOk(r.space, r.x[k]), "P13.admissible")
          \cup If(\A k \in DOMAIN r.con : Feasible(r.con[k]), "P13.feasible")
          \cup If(r.lhs = <<>> \/ \A k \in DOMAIN r.lhs : LhsOk(r.lhs[k], r.n), "P13.latin")
          \cup If(\A k \in DOMAIN r.sobol : SobolOk(r.sobol[k], r.n), "P13.sobol")
          \cup If(\A k \in DOMAIN r.tenths : TenthsOk(r.tenths[k], r.n), "P13.range")
          \cup If(\A k \in DOMAIN r.seen : Range1(r.seen[k].v) = Values(r.space[r.seen[k].i]), "P13.coverage")
          \cup If(\A k \in DOMAIN r.spread : r.n < 2 \/ r.spread[k] > 1, "P13.spread")
          \cup If(r.pure, "P13.pure"))
MemberBad(r) ==
    If(\A k \in DOMAIN r.m : r.m[k].got = InRange(r.space[r.m[k].i], r.m[k].a, r.m[k].b), "P13.member")
    \cup If(\A k \in DOMAIN r.pm : r.pm[k].got = \A i \in DOMAIN r.space : InRange(r.space[i], r.pm[k].v[i].a, r.pm[k].v[i].b),
            "P13.memberpoint")
    \cup If(r.exc = "", "P13.membererror")
RoundBad(r) ==
    LET d == [k |-> "real", lo |-> r.lo, hi |-> r.hi, st |-> 1, pr |-> r.pr, nl |-> 0] IN
    If(r.exc = "", "P13.rounderror")
    \cup If(IsTie(r.v, d) \/ \A k \in DOMAIN r.out : r.out[k].a = Round(r.v, d) /\ r.out[k].b = 0, "P13.round")
    \cup If(\A k \in DOMAIN r.out : InVar(d, [t |-> "float", a |-> r.out[k].a, b |-> r.out[k].b]), "P13.roundadm")
    \cup If(r.pure, "P13.roundpure")
Bads(r) == CASE r.k = "sample" -> SampleBad(r) [] r.k = "member" -> MemberBad(r) [] OTHER -> RoundBad(r)
Init == t = 0
Step == /\ t < Len(Traces)
        /\ t' = t + 1
        /\ \A c \in Bads(Traces[t + 1]) : PrintT(<<"@BAD", Traces[t + 1].tid, 1, c>>)
        /\ PrintT(<<"@DONE", Traces[t + 1].tid>>)
Spec == Init /\ [][Step]_t
=============================================================================
