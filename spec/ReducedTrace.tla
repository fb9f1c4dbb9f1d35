----------------------------- MODULE ReducedTrace -----------------------------
EXTENDS Reduced, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t
If(b, c) == IF b THEN {} ELSE {c}

PenBads(r) ==
    LET x == Back(r.z, r.comp, r.c)
        T == Total(x, r.lo, r.hi)
        S == Slope(x, r.lo, r.hi, r.comp)
    IN If(r.exc = "", "P26.error")
       \cup UNION {If(r.val[k] = (IF T = 0 THEN r.crit ELSE -1000 * T), "P26.penalty") : k \in DOMAIN r.val}
       \cup UNION {If(\A j \in DOMAIN S : r.slope[k][j] = (IF T = 0 THEN r.gcrit ELSE 1000 * S[j]), "P26.slope") : k \in DOMAIN r.slope}

LinBads(r) ==
    LET W == WSum(r.ys, r.mn) N == Len(r.X) D == Len(r.X[1]) IN
    If(r.exc = "", "P26.error")
    \* the weighted mean: N * mean * W = sum of weight * (x - centre)
    \cup If(\A k \in 1..D : Abs(r.meanN[k] * W * N - 1000 * Moment(r.X, r.ys, r.mn, k)) <= 4000 * N * N, "P26.weights")
    \cup If(r.orth <= 1, "P26.orthonormal")
    \cup If(r.roundtrip <= 1, "P26.roundtrip")
    \cup If(\A k \in DOMAIN r.same : r.same[k] <= 1, "P26.order")

(* histories: fold over the recorded steps *)
RECURSIVE Fold(_, _, _, _, _, _)
Fold(r, k, X, Y, evals, acc) ==
    IF k > Len(r.steps) THEN acc
    ELSE LET s == r.steps[k]
             ok == SelectSeq([i \in DOMAIN s.y |-> i], LAMBDA i : s.y[i] # NAN)
             X2 == X \o [i \in DOMAIN ok |-> s.x[ok[i]]]
             Y2 == Y \o [i \in DOMAIN ok |-> s.y[ok[i]]]
             ev == evals + Len(s.y)
             n == Len(Y2)
         IN Fold(r, k + 1, X2, Y2, ev, acc
              \cup If(Len(s.x) = Len(s.y) /\ \A i \in DOMAIN s.x : Len(s.x[i]) = r.d, "P26.shape")
              \cup If(k > 1 \/ s.inbox, "P26.box")
              \cup If(k = 1 \/ s.reach, "P26.reach")
              \cup If(s.data = X2 /\ s.fit = Y2, "P26.record")
              \cup If(s.evals = ev /\ s.iters = k, "P26.counts")
              \cup If(\E b \in Best(Y2, r.mn) : s.xopt = X2[b] /\ s.fopt = Y2[b], "P26.best")
              \* the surrogate knows the recorded points, in reduced coordinates, and their order
              \cup If(s.modelX <= 1 /\ s.modelN = n, "P26.modelX")
              \cup If(Len(s.modelY) = n /\ \A i \in 1..n : \A j \in 1..n : (Y2[i] < Y2[j]) = (s.modelY[i] < s.modelY[j]), "P26.modelY")
              \cup If(\A j \in DOMAIN s.bounds : s.image[j][1] >= s.bounds[j][1] - 1 /\ s.image[j][2] <= s.bounds[j][2] + 1, "P26.cover")
              \cup If(s.twin <= 1, "P26.mirror"))

Bads(r) == CASE r.kind = "pen" -> PenBads(r)
             [] r.kind = "lin" -> LinBads(r)
             [] OTHER -> If(r.exc = "", "P26.error") \cup Fold(r, 1, <<>>, <<>>, 0, {})
Init == t = 0
Step == /\ t < Len(Traces)
        /\ t' = t + 1
        /\ \A b \in Bads(Traces[t + 1]) : PrintT(<<"@BAD", Traces[t + 1].tid, 1, b>>)
        /\ PrintT(<<"@DONE", Traces[t + 1].tid>>)
Spec == Init /\ [][Step]_t
=============================================================================
