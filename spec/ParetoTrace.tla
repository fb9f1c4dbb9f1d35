----------------------------- MODULE ParetoTrace -----------------------------
(* Judges what the real functions returned for each case. *)
EXTENDS Pareto, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t
If(b, c) == IF b THEN {} ELSE {c}
Bads(r) ==
    LET ys == r.ys
        S == RangeS(ys)
        F == Front(S)
        FM == FrontMin(S)
        h == HV(S, r.ref, r.top)
    IN  If(r.same, "P10.input")
        \cup If(r.exc = "", "P10.error")
        \cup If(r.m # 2 \/ (OncePer(r.nd_max, ys, F) /\ OncePer(r.nd_min, ys, FM)), "P10.set2d")
        \cup If(OncePer(r.isnd, ys, F), "P10.isnd")
        \cup If(All(r.isnd_all, ys, F), "P10.isnd")
        \cup If(OncePer(r.ispe, ys, FM), "P10.efficient") \cup If(r.ispe = r.ispe_idx, "P10.efficient")
        \cup If(LET L == Layers(ys, DOMAIN ys) IN
                /\ Len(r.fronts) = Len(L)
                /\ \A k \in DOMAIN L : RangeS(r.fronts[k]) = L[k] /\ Len(r.fronts[k]) = Cardinality(L[k]), "P10.fronts")
        \cup If(\A k \in DOMAIN r.hv : r.hv[k] = h, "P10.hypervolume")  \* up to three objectives: any set, beyond: antichains
        \cup UNION {LET p == r.parts[k] IN
               If(/\ RangeS(p.front) = {v \in F : \A j \in DOMAIN v : v[j] > r.ref[j]}
                  /\ Len(p.front) = Cardinality(RangeS(p.front)), "P10.archive")
               \cup If(p.hv = h, "P10.parthv")
               \cup If(Partition(p.boxes, S, r.ref, r.bot, r.top), "P10.partition") : k \in DOMAIN r.parts}
Init == t = 0
Step == /\ t < Len(Traces)
        /\ t' = t + 1
        /\ \A c \in Bads(Traces[t + 1]) : PrintT(<<"@BAD", Traces[t + 1].tid, 1, c>>)
        /\ PrintT(<<"@DONE", Traces[t + 1].tid>>)
Next == Step
Spec == Init /\ [][Next]_t
=============================================================================
