----------------------------- MODULE RestartTrace -----------------------------
(* Judges searches ("search") and runs of the inner optimizers ("inner")
   recorded from the real code.                                              *)
EXTENDS Restart, Inner, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t
If(b, c) == IF b THEN {} ELSE {c}

SearchBad(x) ==
    IF x.exc # "" THEN {"P17.error"}
    ELSE If(Limit(x.runs, x.n), "P17.restarts")
    \cup If(NoLate(x.runs, x.b, x.w), "P17.late")
    \cup If(NoEarly(x.runs, x.b, x.w, x.n), "P17.early")
    \cup If(Granted(x.runs, x.b), "P17.budget")
    \cup If(x.max, "P17.direction")
    \cup If(x.pen, "P17.constraints")
    \cup If(x.fresh, "P17.fresh")
    \cup (IF Oks(x.runs) = {} THEN If(x.res.none, "P17.nothing")
          ELSE If(~x.res.none /\ x.res.f = Best(x.runs), "P17.value")
               \cup If(~x.res.none => \E i \in Winners(x.runs) : i \in Range1(x.res.at), "P17.point"))

InnerBad(x) ==
    IF x.exc # "" THEN {"P17.error"}
    ELSE LET V == [i \in DOMAIN x.evals |-> x.evals[i].r]
             N == Len(V)
             E == {i \in DOMAIN V : Same(x.evals[i].p, x.res.p)}
         IN If(\A i \in DOMAIN V : AdmPoint(x.space, x.evals[i].p), "P17.admissible")
            \cup If(E # {}, "P17.evaluated")
            \cup If(\A i \in E : V[i] = x.res.r, "P17.exact")
            \cup If(x.res.r = BestOf(x.mn, V), "P17.best")
            \cup If(N <= IF x.budget + x.pop > x.init THEN x.budget + x.pop ELSE x.init, "P17.overshoot")
            \cup If(x.restarts <= x.maxrestarts, "P17.nrestart")
            \cup If(x.count = N, "P17.count")
            \cup If(x.again, "P17.seed")
            \cup If(x.fresh, "P17.fresh")

Bads(x) == IF x.k = "search" THEN SearchBad(x) ELSE IF x.k = "skip" THEN {} ELSE InnerBad(x)
Init == t = 0
Step == /\ t < Len(Traces)
        /\ t' = t + 1
        /\ \A c \in Bads(Traces[t + 1]) : PrintT(<<"@BAD", Traces[t + 1].tid, 1, c>>)
        /\ PrintT(<<"@DONE", Traces[t + 1].tid>>)
Spec == Init /\ [][Step]_t
=============================================================================
