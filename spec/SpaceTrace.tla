------------------------------ MODULE SpaceTrace ------------------------------
EXTENDS Space, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
vars == <<t, i>>
If(b, c) == IF b THEN {} ELSE {c}
Tr == Traces[t]
\* registers as recorded after step k (before the first step: empty spaces)
RegsAt(k) == IF k = 0 THEN [r \in DOMAIN Tr.ev[1].regs |-> <<>>]
             ELSE [r \in DOMAIN Tr.ev[k].regs |-> Tr.ev[k].regs[r].vars]
KindIdx(s, k) == {j \in DOMAIN s : Tr.kinds[s[j].d] = k}
Cat == {"Discrete", "Ordinal", "Bool", "Subset"}
ViewOk(v) ==
    LET s == v.vars IN
    /\ \A j \in DOMAIN s : s[j].d # 0
    /\ v.names = [j \in DOMAIN s |-> s[j].nm]
    /\ v.types = [j \in DOMAIN s |-> Tr.kinds[s[j].d]]
    /\ v.bounds = [j \in DOMAIN s |-> s[j].d]
    /\ v.dim = Len(s) /\ v.len = Len(s) /\ v.iter = Decls(s)
    /\ \A k \in {"Real", "Integer"} \cup Cat :
          Rng(v.ids[k]) = KindIdx(s, k) /\ Rng(v.masks[k]) = KindIdx(s, k) /\ Len(v.ids[k]) = Cardinality(KindIdx(s, k))
    /\ Rng(v.ids["categorical"]) = UNION {KindIdx(s, k) : k \in Cat}
    /\ Rng(v.masks["categorical"]) = UNION {KindIdx(s, k) : k \in Cat}
    /\ {v.levels[j].i : j \in DOMAIN v.levels} = UNION {KindIdx(s, k) : k \in Cat}
    /\ \A j \in DOMAIN v.levels : v.levels[j].d = s[v.levels[j].i].d
    /\ v.byname
    /\ LET K == {Tr.kinds[s[j].d] : j \in DOMAIN s} IN
       v.cls = (IF Cardinality(K) = 1 THEN (CHOOSE k \in K : TRUE) \o "Space" ELSE "SearchSpace")
StepBad(e, R) ==
    LET want == Result(R, e.o, Tr.declname)
        got == e.regs[e.o.t].vars
    IN If(e.exc = "", "P12.error")
       \cup (IF e.exc # "" THEN {} ELSE
             If(Presents(got, want), "P12.vars") \cup If(NamesOk(got, want), "P12.names")
             \cup If(e.o.op \notin {"pop"} \/ e.ret = R[e.o.t][e.o.i].d, "P12.popped")
             \cup If(e.eq, "P12.equal"))
       \cup If(\A r \in DOMAIN e.regs : r = e.o.t \/ e.regs[r].vars = R[r], "P12.operand")
       \cup If(\A r \in DOMAIN e.regs : ViewOk(e.regs[r]), "P12.views")
       \cup If(\A k \in DOMAIN e.rel : LET q == e.rel[k] A == e.regs[q.a].vars B == e.regs[q.b].vars IN
                  /\ q.eq = Equal(A, B) /\ q.ne = ~Equal(A, B)
                  /\ (Contains(A, B) => q.has) /\ (~(Names(B) \subseteq Names(A)) => ~q.has)
                  /\ \A j \in DOMAIN B : /\ (B[j] \in Rng(A) => q.each[j])
                                         /\ (q.each[j] => \E v \in Rng(A) : v.nm = B[j].nm /\ v.d # 0 /\ B[j].d # 0 /\ Tr.same[v.d] = Tr.same[B[j].d]), "P12.relation")
       \cup If(e.args, "P12.argument")
Init == t = 1 /\ i = 0
Step == /\ t <= Len(Traces) /\ i < Len(Tr.ev)
        /\ i' = i + 1 /\ t' = t
        /\ \A c \in StepBad(Tr.ev[i + 1], RegsAt(i)) : PrintT(<<"@BAD", Tr.tid, i + 1, c>>)
Close == /\ t <= Len(Traces) /\ i = Len(Tr.ev)
         /\ PrintT(<<"@DONE", Tr.tid>>)
         /\ t' = t + 1 /\ i' = 0
Spec == Init /\ [][Step \/ Close]_vars
=============================================================================
