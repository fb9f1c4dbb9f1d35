---------------------------- MODULE CriteriaTrace ----------------------------
(* Judges the criteria recorded during the requests of ask/tell traces. *)
EXTENDS Criteria, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
vars == <<t, i>>
Tr == Traces[t]
C == Tr.cfg.crit
If(b, c) == IF b THEN {} ELSE {c}

IsReq(j) == Tr.ev[j].op = "ask" /\ Tr.ev[j - 1].st.fitted /\ Tr.ev[j].exc # "NotImplementedError"
Before(j) == {m \in 2..(j - 1) : IsReq(m)}
K(j) == Cardinality(Before(j))
N(j) == IF Tr.ev[j].n > 0 THEN Tr.ev[j].n ELSE Tr.cfg.npt
Crit(j) == Tr.ev[j].crit
LastBatch(j) == LET S == {m \in Before(j) : N(m) > 1} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
BaseAt(j) == Base(C, K(j))
Ts(m) == [x \in DOMAIN Crit(m) |-> Crit(m)[x].t]

FunsOk(j) == IF C.fun = "MULTI"
             THEN IF N(j) = 1 THEN \A x \in DOMAIN Crit(j) : Crit(j)[x].cls = "MGFI"
                  ELSE {Crit(j)[x].cls : x \in DOMAIN Crit(j)} = {"MGFI", "UCB"}
             ELSE \A x \in DOMAIN Crit(j) : Crit(j)[x].cls = C.fun

ParBad(j) ==
    IF C.kind = "self"
    THEN IF N(j) > 1 THEN If(\A x \in DOMAIN Crit(j) : Crit(j)[x].t >= 0 /\ Crit(j)[x].t <= CAP, "P22.sampled")
         ELSE LET m == LastBatch(j) IN
              IF m = 0 THEN If(Near(Crit(j)[1].t, Min2(C.base, CAP)), "P22.parameter")
              ELSE IF Len(Tr.ev[m].vals) # Len(Crit(m))
                   THEN If(\E S \in Halves(Len(Crit(m))) :
                              Near(Crit(j)[1].t, SumOver(Ts(m), S) \div Cardinality(S)), "P22.adapted")
                   ELSE If(IsAdapted(Crit(j)[1].t, Ts(m), Tr.ev[m].vals), "P22.adapted")
    ELSE IF N(j) = 1
         THEN If(\A x \in DOMAIN Crit(j) : Near(ParOf(Crit(j)[x]), Min2(BaseAt(j), CAP)), "P22.parameter")
         ELSE If(\A x \in DOMAIN Crit(j) : ParOf(Crit(j)[x]) > 0, "P22.sampled")
              \cup If(Len(Crit(j)) < 2 \/ Cardinality({Crit(j)[x] : x \in DOMAIN Crit(j)}) > 1, "P22.spread")

ReqBad(j) ==
    IF Tr.ev[j].exc \notin {"", "AskEmptyError"} THEN {"P22.error"}
    ELSE IF Len(Crit(j)) < N(j) THEN {"P22.built"}
    ELSE If(FunsOk(j), "P22.criterion")
         \cup If(\A x \in DOMAIN Crit(j) : Crit(j)[x].mn = Tr.cfg.min[1], "P22.direction")
         \cup If(\A x \in DOMAIN Crit(j) : Crit(j)[x].cls \in Improvement => Crit(j)[x].plug = 1, "P22.incumbent")
         \cup If(\A x \in DOMAIN Crit(j) : Crit(j)[x].model, "P22.model")
         \cup ParBad(j)
         \cup If(Tr.ev[j].st.aqpar, "P22.caller")

(* all samples of a trace, with the value configured at their time; the samples of the
   portfolio are judged per criterion *)
Samples(cls) == UNION {{<<j, x>> : x \in {y \in DOMAIN Crit(j) : Crit(j)[y].cls = cls}} :
                       j \in {m \in 2..Len(Tr.ev) : IsReq(m) /\ N(m) > 1}}
BaseOf(cls, j) == IF C.fun = "MULTI" THEN (IF cls = "MGFI" THEN 1000000 ELSE 100000) ELSE BaseAt(j)
AroundBad(cls) ==
    IF C.kind = "self" \/ Len(Tr.ev) < 3 THEN {}
    ELSE LET S == Samples(cls) IN
    IF cls = "MGFI" THEN
        If(Around(S, {s \in S : Crit(s[1])[s[2]].t < BaseOf(cls, s[1])}), "P22.around")
    ELSE \* the confidence bound: most samples within 0.2 of the configured value
        LET B == BaseOf(cls, 2) IN
        If(Cardinality(S) < 60
           \/ (/\ 5 * Cardinality({s \in S : Crit(s[1])[s[2]].alpha <= B + 200000}) >= 2 * Cardinality(S)
               /\ 5 * Cardinality({s \in S : Crit(s[1])[s[2]].alpha >= B - 200000}) >= 2 * Cardinality(S)), "P22.around")

Bads(j) == (IF j > 1 /\ IsReq(j) THEN ReqBad(j) ELSE {})
           \cup (IF j = Len(Tr.ev) THEN AroundBad("MGFI") \cup AroundBad("UCB") ELSE {})

Init == t \in 1..Len(Traces) /\ i = 0
Step == /\ i < Len(Tr.ev)
        /\ i' = i + 1
        /\ \A c \in Bads(i + 1) : PrintT(<<"@BAD", Tr.tid, i + 1, c>>)
        /\ UNCHANGED t
Done == /\ i = Len(Tr.ev)
        /\ PrintT(<<"@DONE", Tr.tid>>)
        /\ i' = i + 1
        /\ UNCHANGED t
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
