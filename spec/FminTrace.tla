------------------------------- MODULE FminTrace -------------------------------
EXTENDS Fmin, ATCore, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t
If(b, c) == IF b THEN {} ELSE {c}
\* x: c, sup (ids and values of the supplied points), calls, pts (encoded points of the calls), ret
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Whole(b, ys) == Sum(b, Len(b)) = Len(ys)
FBad(x) ==
    LET W == Len(x.sup)
        pre == IF x.c.init = "pts" THEN W ELSE 0
        opt == SubSeq(x.calls, pre + 1, Len(x.calls))
        wys == [i \in 1..W |-> IF x.c.init = "vals" THEN x.sup[i].y ELSE x.calls[i].y]
        ys == [i \in DOMAIN opt |-> opt[i].y]
        all == wys \o ys
        known == {<<x.sup[i].id, wys[i]>> : i \in 1..W} \cup {<<opt[i].id, opt[i].y>> : i \in DOMAIN opt}
        sizes == [i \in DOMAIN x.ret.b |-> Len(x.ret.b[i])]
    IN IF Len(x.calls) < pre THEN {"P20.supplied"}
       ELSE If(\A i \in DOMAIN x.pts : Len(x.pts[i]) = Len(x.space) /\ \A k \in DOMAIN x.space : InVar(x.space[k], x.pts[i][k]), "P20.box")
       \cup If(x.args, "P20.args")
       \cup If(x.vec, "P20.vector")
       \cup If(\A i \in 1..pre : x.calls[i].id = x.sup[i].id, "P20.supplied")
       \cup (IF x.exc = "Runaway" THEN {"P20.budget"}
             ELSE IF x.exc # "" THEN If(~AnyFin(all) \/ (x.exc = "FlatFitnessError" /\ AllSame(all)), "P20.error")
             ELSE If(x.ret.e = Len(opt), "P20.evals")
                  \cup If(x.ret.i = Len(x.ret.b), "P20.iters")
                  \cup If(Concat(x.ret.b) = [i \in DOMAIN opt |-> opt[i].id], "P20.points")
                  \cup If(Whole(sizes, ys) => Batches(x.c, wys, ys, sizes), "P20.batch")
                  \cup If(Whole(sizes, ys) => Ends(x.c, wys, ys, sizes), "P20.budget")
                  \cup If(x.ret.y = MinOf(all), "P20.value")
                  \cup If(<<x.ret.x, x.ret.y>> \in known, "P20.point")
                  \cup If(x.again, "P20.seed"))
Bads(x) == FBad(x)
Init == t = 0
Step == /\ t < Len(Traces)
        /\ t' = t + 1
        /\ \A c \in Bads(Traces[t + 1]) : PrintT(<<"@BAD", Traces[t + 1].tid, 1, c>>)
        /\ PrintT(<<"@DONE", Traces[t + 1].tid>>)
Spec == Init /\ [][Step]_t
=============================================================================
