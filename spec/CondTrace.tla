------------------------------- MODULE CondTrace -------------------------------
(* Judges unconditional subspaces ("space") and histories of the conditional
   optimizer ("bo") recorded from the real code.                             *)
EXTENDS Cond, ATCore, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t
If(b, c) == IF b THEN {} ELSE {c}

\* key: level of every variable recorded as selector value (0: absent, -1: not a level)
KeyOf(S, K, key) == [i \in Selectors(S, K) |-> key[i]]
SpaceBad(x) ==
    IF x.exc # "" THEN {"P15.error"}
    ELSE LET S == x.S
             K == Range1(x.keep)
             D == x.subs
             C == Combos(S, K)
             keys == {KeyOf(S, K, D[i].key) : i \in DOMAIN D}
         IN If(keys \subseteq C, "P15.infeasible")
            \cup If(C \subseteq keys, "P15.missing")
            \cup If(Cardinality(keys) = Len(D), "P15.duplicate")
            \cup If(\A i \in DOMAIN D : \A j \in DOMAIN D[i].key : j \notin Selectors(S, K) => D[i].key[j] = 0, "P15.key")
            \cup If(\A i \in DOMAIN D : Range1(D[i].vars) = Plain(S, K, KeyOf(S, K, D[i].key)) /\ Len(D[i].vars) = Cardinality(Range1(D[i].vars)), "P15.vars")
            \cup If(\A i \in DOMAIN D : D[i].intact, "P15.decl")
            \cup If(x.kept, "P15.source")

(* events: ask [n, pts], tell [ys, rec, eval, iter, best, hist]; a point is a
   sequence of [p |-> present (not None), e |-> encoded value, l |-> level]   *)
ComboAt(S, pt) == [i \in Selectors(S, DOMAIN S) |-> IF pt[i].p THEN pt[i].l ELSE 0]
PointBad(x, pt) ==
    LET S == x.S
        a == ComboAt(S, pt)
        ok == IsCombo(S, DOMAIN S, a)
    IN If(Len(pt) = Len(S), "P15.shape")
       \cup If(ok, "P15.selectors")
       \cup (IF ok THEN
               If(\A i \in DOMAIN S \ Selectors(S, DOMAIN S) : Active(S, a, i) => pt[i].p, "P15.active")
               \cup If(\A i \in DOMAIN S \ Selectors(S, DOMAIN S) : ~Active(S, a, i) => ~pt[i].p, "P15.inactive")
               \cup If(\A i \in DOMAIN S : pt[i].p => InVar(x.decl[i], pt[i].e), "P15.admissible")
             ELSE {})
Finite(c) == c < 900000
\* some subspace has finitely many points: it may be enumerated, which is reported as an error
Enumerable(S) == \E a \in Combos(S, DOMAIN S) : \A i \in Plain(S, DOMAIN S, a) : S[i].k # "real"
RECURSIVE Bo(_, _, _)
(* The surrogate of a combination knows exactly the points reported for it.  h: all
   reports <<id, value, combination>>; F: what one surrogate was fitted to.             *)
OfCombo(h, a) == SelectSeq(h, LAMBDA o : o[3] = a)
FitOf(F, h, a) ==
    LET p == OfCombo(h, a) IN
    /\ Len(F) = Len(p)
    /\ \A i \in DOMAIN F : F[i].id = p[i][1]
    /\ \A i, j \in DOMAIN F : (F[i].r < F[j].r) = (p[i][2] < p[j][2])
\* telling the surrogate of a combination fails: more than five points, all of the same value
FlatSeq(p) == Len(p) > 5 /\ \A i \in DOMAIN p : p[i][2] = p[1][2]
\* st: [seen, hist (ids and values), evals, iters, hf]; reports of the first k events
Bo(x, k, st) ==
    IF k > Len(x.ev) THEN {}
    ELSE LET e == x.ev[k]
             S == x.S
             C == Combos(S, DOMAIN S)
         IN IF e.exc # "" /\ e.k = "ask" THEN IF e.exc = "AskEmptyError" /\ k > 1 /\ Enumerable(S) THEN {} ELSE {<<k, "P15.error">>}
            ELSE IF e.k = "ask" THEN
               LET bad == UNION {PointBad(x, e.pts[i]) : i \in DOMAIN e.pts}
                   cs == [i \in DOMAIN e.pts |-> ComboAt(S, e.pts[i])]
                   b2 == bad \cup If(Len(e.pts) = e.n, "P15.count")
                         \cup (IF bad = {} THEN If(BatchOK(C, st.seen, cs), "P15.cover") ELSE {})
               IN {<<k, b>> : b \in b2}
                  \cup (IF bad = {} THEN Bo(x, k + 1, [st EXCEPT !.seen = @ \cup Range1(cs), !.pend = cs]) ELSE {})
            ELSE
               LET all == [i \in DOMAIN e.ids |-> <<e.ids[i], e.ys[i], st.pend[i]>>]
                   new == SelectSeq(all, LAMBDA o : Finite(o[2]))
                   h == st.hist \o new
                   vs == {h[i][2] : i \in DOMAIN h}
                   best == IF h = <<>> THEN 0
                           ELSE CHOOSE v \in vs : \A w \in vs : IF x.mn THEN v <= w ELSE v >= w
                   flat == \E i \in DOMAIN all :
                              FlatSeq(OfCombo(st.hist \o SelectSeq(SubSeq(all, 1, i), LAMBDA o : Finite(o[2])), all[i][3]))
                   s2 == [st EXCEPT !.hist = h, !.evals = @ + Len(e.ids), !.iters = IF flat THEN @ ELSE @ + 1,
                                    !.hf = IF h = <<>> \/ flat THEN @ ELSE Append(@, best)]
                   told == {h[i][3] : i \in DOMAIN h}
                   b == If(e.exc = (IF flat THEN "FlatFitnessError" ELSE ""), "P15.error")
                        \cup If([i \in DOMAIN e.rec |-> <<e.rec[i].id, e.rec[i].y>>] = [i \in DOMAIN h |-> <<h[i][1], h[i][2]>>], "P15.history")
                        \cup If(e.eval = s2.evals, "P15.evals")
                        \cup If(e.iter = s2.iters, "P15.iters")
                        \cup If(e.hf = s2.hf, "P15.trajectory")
                        \cup If(h = <<>> \/ (e.best.y = best /\ \E i \in DOMAIN h : h[i][1] = e.best.id /\ h[i][2] = best), "P15.incumbent")
                        \cup If(x.ambig \/ e.fits = <<>> \/ \A a \in told :
                                  FlatSeq(OfCombo(h, a)) \/ \E k2 \in DOMAIN e.fits : FitOf(e.fits[k2], h, a), "P15.model")
               IN {<<k, c>> : c \in b} \cup Bo(x, k + 1, s2)
BoBad(x) == Bo(x, 1, [seen |-> {}, pend |-> <<>>, hist |-> <<>>, evals |-> 0, iters |-> 0, hf |-> <<>>])
Bads(x) == IF x.k = "space" THEN {<<1, c>> : c \in SpaceBad(x)} ELSE BoBad(x)
Init == t = 0
Step == /\ t < Len(Traces)
        /\ t' = t + 1
        /\ \A c \in Bads(Traces[t + 1]) : PrintT(<<"@BAD", Traces[t + 1].tid, c[1], c[2]>>)
        /\ PrintT(<<"@DONE", Traces[t + 1].tid>>)
Spec == Init /\ [][Step]_t
=============================================================================
