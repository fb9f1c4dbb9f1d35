----------------------------- MODULE AskTellTrace -----------------------------
(***************************************************************************)
(* Trace specification: judges recorded runs of the real optimizers step   *)
(* by step against the operators of ATCore.  The state carried between     *)
(* steps is the state the specification prescribes, which equals the       *)
(* recorded one unless a violation has been reported (then it is           *)
(* re-synchronised, so that one deviation is reported once).               *)
(***************************************************************************)
EXTENDS ATCore, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, i
vars == <<t, i>>

Tr == Traces[t]
Cfg == Tr.cfg
Mns == Cfg.min
NObj == Cfg.nobj
Pt(p) == Tr.pts[p]
Hist(st) == [k \in DOMAIN st.hist |-> [p |-> st.hist[k].p, y |-> st.hist[k].y]]

If(b, c) == IF b THEN {} ELSE {c}      \* clause c is violated unless b

---------------------------------------------------------------------------
(* Requirements on one suggested point (F: fixed variables)                 *)
PointBad(p, F) ==
    IF p = 0 THEN {"P01.shape"}
    ELSE If(\A v \in DOMAIN Tr.space : v \notin F => InVar(Tr.space[v], Pt(p).v[v]), "P01.domain")
         \cup If(~Cfg.cons \/ Feasible(Pt(p)), "P03.feasible")

(* The state after every operation                                          *)
StateBad(st) ==
    LET h == Hist(st) IN
    If(st.names, "P05.names")
    \cup If(\A k \in DOMAIN st.hist : st.hist[k].n = 1, "P05.neval")
    \cup If(\A k \in DOMAIN h : h[k].p # 0 /\ AllFin(h[k].y), "P05.record")
    \cup If(IsRec(st.best, h, Mns, NObj), IF NObj = 1 THEN "P06.best" ELSE "P09.front")
    \cup If(~Cfg.csv \/ (Len(st.csv) = Len(st.hist) /\ \A k \in DOMAIN st.hist : st.csv[k] = st.hist[k]),
            "P21.rows")
    \cup If(st.aqpar, "P22.caller") \cup If(st.aqopt, "P16.caller")

Near(a, b) == a - b <= 1 /\ b - a <= 1
FitBad(st) ==   \* the surrogate knows exactly the history
    LET h == Hist(st) IN
    IF ~Cfg.stub THEN {}
    ELSE If(st.fitted, "P23.fitted")
         \cup If(st.fitp = [k \in DOMAIN h |-> h[k].p], "P23.points")
         \cup If(Len(st.fity) = Len(h) /\ (st.fity = FitRanks(h, Mns, NObj)), "P23.values")
         \* standardized over the whole history; each of several objectives scaled to its range
         \cup If(\A j \in DOMAIN st.fitm : st.fitm[j] = <<>> \/
                  (IF NObj = 1 THEN Near(st.fitm[j][1], 0) /\ Near(st.fitm[j][2], 10000)
                   ELSE Near(st.fitm[j][4] - st.fitm[j][3], 10000)), "P23.scale")

Core(st) == <<st.hist, st.evals, st.iters, st.histf, st.csv, st.best>>
SameCore(a, b, c) == If(Core(a) = Core(b), c)
SameStop(a, b, c) == If(a.stop = b.stop, c)
SameFit(a, b, c) == If(a.fitted = b.fitted /\ a.fitp = b.fitp /\ a.fity = b.fity, c)

---------------------------------------------------------------------------
(* Effect of a report of `pts` with vectors `ys`: from state a to state b   *)
ReportBad(a, b, pts, ys, exc, warm, anyorder) ==
    LET h0 == Hist(a)
        h1 == Hist(b)
        k  == Kept(pts, ys)
        flat == Flat(h0 \o k, NObj)
        none == h0 \o k = <<>>
    IN
    (IF anyorder
     THEN If(Len(h1) = Len(h0) + Len(k) /\ SubSeq(h1, 1, Len(h0)) = h0
             /\ SameBag(SubSeq(h1, Len(h0) + 1, Len(h1)), k), "P19.record")
     ELSE If(h1 = h0 \o k, "P05.history"))
    \cup If(b.evals = TellEvals(a.evals, Len(pts), NObj, warm), "P05.evals")
    \cup (IF flat THEN If(exc = "FlatFitnessError", "P05.error") \cup If(b.histf = a.histf, "P06.record") \cup If(b.iters = a.iters, "P05.iters")
          ELSE If(exc = "", "P05.error")
               \cup If(b.iters = a.iters + (IF warm THEN 0 ELSE 1), "P05.iters")
               \cup (IF none THEN If(b.histf = a.histf, "P06.record") \cup If(~b.fitted, "P23.fitted")
                     ELSE (IF warm THEN If(b.histf = a.histf, "P06.record")
                           ELSE If(/\ Len(b.histf) = Len(a.histf) + 1
                                   /\ SubSeq(b.histf, 1, Len(a.histf)) = a.histf
                                   /\ IsBestEntry(b.histf[Len(b.histf)], h1, Mns, NObj),
                                   IF NObj = 1 THEN "P06.record" ELSE "P09.record"))
                          \cup FitBad(b)))

(* Requests                                                                 *)
FixIdx(e) == {e.fix[k].i : k \in DOMAIN e.fix}
Wanted(e, a) == IF e.n > 0 THEN e.n ELSE IF a.fitted THEN Cfg.npt ELSE Cfg.doe

(* variables fixed in the previous request and free in this one *)
PrevFix == IF i >= 1 /\ Tr.ev[i].op = "ask" THEN Tr.ev[i].fix ELSE <<>>
Local(e) ==
    \A k \in DOMAIN PrevFix :
        LET v == PrevFix[k].i IN
        (v \notin FixIdx(e) /\ Tr.space[v].k = "real" /\ Tr.space[v].pr = 0 /\ ~Cfg.cons
           /\ PrevFix[k].a > Tr.space[v].lo /\ PrevFix[k].a < Tr.space[v].hi /\ PrevFix[k].a # 0) =>
        \A m \in DOMAIN e.out : e.out[m] = 0 \/ Pt(e.out[m]).v[v].q # PrevFix[k].q

WasFixed == \E k \in 1..i : Tr.ev[k].op = "ask" /\ Tr.ev[k].fix # <<>>

AskBad(e, a) ==
    LET F == FixIdx(e) W == Wanted(e, a) IN
    (IF e.exc = "" THEN
        If(e.fmtok, "P01.format")
        \cup UNION {PointBad(e.out[k], F) : k \in DOMAIN e.out}
        \cup If(Len(e.out) >= 1 /\ Len(e.out) <= W, "P01.count")
        \cup If(Cfg.cons \/ ~HasFreeReal(Tr.space, F) \/ Len(e.out) = W, "P01.exact")
        \cup If(\A k \in DOMAIN e.out : e.out[k] = 0 \/
                  \A f \in DOMAIN e.fix : Pt(e.out[k]).v[e.fix[f].i].q = e.fix[f].q, "P02.value")
        \cup (IF F = {} THEN {} ELSE
              If(\A k \in DOMAIN e.out : e.out[k] # 0 /\
                   \A v \in DOMAIN Tr.space : v \notin F => InVar(Tr.space[v], Pt(e.out[k]).v[v]), "P02.rest"))
        \cup If(Cfg.noisy \/ (e.near = <<>> /\ Cardinality(Range1(e.out)) = Len(e.out)
                               /\ Range1(e.out) \cap {a.hist[k].p : k \in DOMAIN a.hist} = {}), "P04.repeat")
        \cup If(Local(e), "P02.local")
     ELSE IF e.exc = "AskEmptyError"
          THEN If(Cfg.cons \/ ~HasFreeReal(Tr.space, F), "P01.empty")
     ELSE IF e.exc = "HANG" THEN {"P01.hang", "P04.hang"}
     ELSE If(e.exc = "NotImplementedError" /\ Cfg.cls \in {"BO", "MOBO"} /\ a.fitted /\ W > 1, "P01.error")
          \cup If((F = {} /\ ~WasFixed) \/ (e.exc = "NotImplementedError" /\ Cfg.cls \in {"BO", "MOBO"}), "P02.error")
          \cup If(~Cfg.cons \/ e.exc = "NotImplementedError", "P03.error"))
    \cup If(e.fixsame, "P02.caller")
    \cup If(e.consbad = 0, "P03.arguments")
    \cup SameCore(a, e.st, "P05.ask") \cup SameStop(a, e.st, "P07.ask") \cup SameFit(a, e.st, "P23.ask")

---------------------------------------------------------------------------
(* The stop test *)
HitsOf(st) == [b |-> BudgetHit(st.evals, Cfg.budget), f |-> TargetHit(Hist(st), Mns, NObj, Cfg.target)]
StopBad(e, a) ==
    LET x == HitsOf(a) IN
    If(e.exc = "", "P07.error")
    \cup If(e.res = (x.b \/ x.f), "P07.iff")
    \cup If(/\ e.st.stop.fe = (IF x.b THEN a.evals ELSE -1)
            /\ e.st.stop.ft = (IF x.f THEN BestVal(Hist(a), Mns[1]) ELSE UNKNOWN)
            /\ e.st.stop.n = (IF x.b THEN 1 ELSE 0) + (IF x.f THEN 1 ELSE 0), "P07.reasons")
    \cup SameCore(a, e.st, "P07.pure") \cup SameFit(a, e.st, "P07.pure")

(* A recommendation *)
RecBad(e, a) ==
    LET c == IF NObj = 1 THEN "P06." ELSE "P09." IN
    (IF a.hist = <<>> THEN If(e.exc = "RecommendationUnavailableError", c \o "none")
     ELSE If(e.exc = "" /\ IsRec(e.out, Hist(a), Mns, NObj), c \o "recommend"))
    \cup SameCore(a, e.st, c \o "pure") \cup SameFit(a, e.st, c \o "pure")

---------------------------------------------------------------------------
(* Step and run.  Calls of the objective are split into batches by the      *)
(* evaluation counter they observed.                                        *)
FirstCalls(e) == SelectSeq(e.calls, LAMBDA c : c.k = 1)
CallsAt(e, n) == SelectSeq(e.calls, LAMBDA c : c.ev = n)
PtsOf(cs) == [k \in DOMAIN cs |-> cs[k].p]
Levels(e) == {e.calls[k].ev : k \in DOMAIN e.calls}
YsAt(e, n) == LET f == FirstCalls(e)
                  idx == SelectSeq([k \in DOMAIN f |-> k], LAMBDA k : f[k].ev = n)
              IN [k \in DOMAIN idx |-> e.ys[idx[k]]]
\* the whole batch of counter value n, as points and values
BatchPts(e, n) == PtsOf(SelectSeq(CallsAt(e, n), LAMBDA c : c.k = 1))

(* every suggested point is evaluated once per objective *)
CallsBad(e, n, a) ==
    LET B == BatchPts(e, n) IN
    If(\A k \in 2..NObj : SameBag(PtsOf(SelectSeq(CallsAt(e, n), LAMBDA c : c.k = k)), B), "P19.once")
    \cup If(Cfg.noisy \/ Cardinality(Range1(B)) = Len(B), "P19.once")
    \cup UNION {PointBad(B[k], {}) : k \in DOMAIN B}
    \cup If(\A k \in DOMAIN e.calls : e.calls[k].fmt, "P19.format")

(* state of the specification after the batches observed below counter n    *)
HistUpTo(e, a, n) ==
    LET f == FirstCalls(e)
        idx == SelectSeq([k \in DOMAIN f |-> k], LAMBDA k : f[k].ev < n)
    IN Hist(a) \o Kept([k \in DOMAIN idx |-> f[idx[k]].p], [k \in DOMAIN idx |-> e.ys[idx[k]]])

RunBad(e, a) ==
    LET b == e.st
        LastL == IF e.calls = <<>> THEN 0 ELSE CHOOSE n \in Levels(e) : \A m \in Levels(e) : m <= n
        full == {n \in Levels(e) : ~(e.raised /\ n = LastL)}
        f == FirstCalls(e)
        idx == SelectSeq([k \in DOMAIN f |-> k], LAMBDA k : f[k].ev \in full)
        pts == [k \in DOMAIN idx |-> f[idx[k]].p]
        ys  == [k \in DOMAIN idx |-> e.ys[idx[k]]]
        h0 == Hist(a)
        h1 == Hist(b)
        k1 == Kept(pts, ys)
        x == HitsOf(b)
    IN
    UNION {CallsBad(e, n, a) : n \in full}
    \* no batch is started once the stop test holds
    \cup If(e.op = "step" \/ \A n \in Levels(e) : ~Stopped(HistUpTo(e, a, n), n, Mns, NObj, Cfg.budget, Cfg.target), "P07.overrun")
    \cup If(Levels(e) = {} \/ a.evals \in Levels(e), "P19.record")
    \cup If(\A n \in full : Len(BatchPts(e, n)) <= (IF HistUpTo(e, a, n) = <<>> THEN Cfg.doe
                                                    ELSE IF Cfg.npt > Cfg.doe THEN Cfg.npt ELSE Cfg.doe), "P19.size")
    \cup If(/\ Len(h1) = Len(h0) + Len(k1) /\ SubSeq(h1, 1, Len(h0)) = h0
            /\ SameBag(SubSeq(h1, Len(h0) + 1, Len(h1)), k1), "P19.record")
    \cup If(b.evals = a.evals + Len(pts) * NObj, "P19.evals")
    \cup If(b.iters = a.iters + Cardinality(full) \/ Flat(h1, NObj), "P19.iters")
    \cup (IF e.raised THEN If(e.exc = "ZeroDivisionError", "P19.raise")
          ELSE If(e.exc = "" \/ (e.exc = "FlatFitnessError" /\ Flat(h1, NObj))
                  \/ (e.exc = "AskEmptyError" /\ (Cfg.cons \/ ~HasFreeReal(Tr.space, {}))), "P19.error"))
    \cup (IF e.op = "run" /\ e.exc = "" THEN
            If(x.b \/ x.f, "P07.early")
            \cup If(/\ e.st.stop.fe = (IF x.b THEN b.evals ELSE -1)
                    /\ e.st.stop.ft = (IF x.f THEN BestVal(h1, Mns[1]) ELSE UNKNOWN), "P07.reasons")
            \cup (IF NObj = 1 /\ h1 # <<>> THEN
                    If(/\ Len(e.ret) = 1
                       /\ e.ret[1].p = h1[BestIdx(h1, Mns[1])].p
                       /\ e.ret[1].y = <<BestVal(h1, Mns[1])>> /\ e.ret[1].same, "P07.returns") ELSE {})
          ELSE {})
    \cup (IF full = {} THEN (IF e.op = "step" \/ e.raised THEN SameCore(a, b, "P19.untouched") ELSE {})
          ELSE IF h1 = <<>> \/ Flat(h1, NObj) THEN {} ELSE FitBad(b))
    \* the record of best values gained one entry per recorded batch
    \cup (IF NObj = 1 /\ ~Flat(h1, NObj) THEN
            LET lv == SetToSortSeq({n \in full : HistUpTo(e, a, n + 1) # <<>>}, <) IN
            If(/\ Len(b.histf) = Len(a.histf) + Len(lv)
               /\ SubSeq(b.histf, 1, Len(a.histf)) = a.histf
               /\ \A k \in DOMAIN lv : b.histf[Len(a.histf) + k] = <<<<BestVal(HistUpTo(e, a, lv[k] + 1), Mns[1])>>>>,
               "P06.record")
          ELSE {})

---------------------------------------------------------------------------
(* Checkpoints *)
Whole(st) == <<st.hist, st.evals, st.iters, st.histf, st.names, st.fitted, st.fitp, st.fity, st.nfit,
               st.stop, st.best>>
SaveBad(e, a) == If(e.exc = "", "P08.save") \cup If(Whole(a) = Whole(e.st) /\ a.csv = e.st.csv, "P08.disturb")
LoadBad(e, a) == If(e.exc = "", "P08.load") \cup If(Whole(a) = Whole(e.st), "P08.state")
CmpBad(e, a) ==
    If(e.exc = "", "P08.load")
    \cup If(Whole(a) = Whole(e.sa), "P08.disturb")
    \cup (IF e.exc = "" THEN
            If(Whole(e.sa) = Whole(e.sb), "P08.state")
            \cup If(e.a = e.b /\ e.xa = e.xb, "P08.future")
            \cup If(Whole(e.pa) = Whole(e.qa), "P08.reaction")
            \cup (IF e.told.exc = "none" THEN {} ELSE
                  {"P08.future" : c \in ReportBad(e.sa, e.qa, e.told.pts, e.told.ys, e.told.exc, FALSE, FALSE)})
          ELSE {})
    \cup (IF e.moved THEN {} ELSE If(Whole(a) = Whole(e.st), "P08.disturb"))
SaveFailBad(e, a) ==
    If(e.first = "", "P08.save")
    \cup If(e.exc # "", "P08.silent")
    \cup If(e.intact, "P08.intact")
    \cup If(e.datatype /\ e.logger, "P08.usable")
    \cup If(Whole(a) = Whole(e.st), "P08.usable")
    \cup If(Whole(e.sa) = Whole(e.sb), "P08.checkpoint")

InitBad(e) ==
    LET z == [hist |-> <<>>, evals |-> 0, iters |-> 0, histf |-> <<>>]
        k == Kept(e.pts, e.ys) IN
    IF e.exc # "" THEN If(e.exc = "FlatFitnessError" /\ Flat(k, NObj), "P05.warm")
    ELSE If(Hist(e.st) = k, "P05.warm")
         \cup If(e.st.evals = 0 /\ e.st.iters = 0, "P05.warmcount")
         \cup If(e.st.histf = <<>>, "P06.record")
         \cup If(e.insame, "P05.caller")
         \cup If(e.st.stop.n = 0, "P07.init")
         \cup (IF k = <<>> THEN If(~e.st.fitted, "P23.fitted") ELSE FitBad(e.st))

EvBad(e, a) ==
    CASE e.op = "ask"  -> AskBad(e, a)
      [] e.op \in {"tell", "tellf"} ->
            ReportBad(a, e.st, e.pts, e.ys, e.exc, FALSE, FALSE) \cup If(e.insame, "P05.caller")
            \cup SameStop(a, e.st, "P07.tell")
      [] e.op = "rec"  -> RecBad(e, a)
      [] e.op = "stop" -> StopBad(e, a)
      [] e.op \in {"step", "run"} -> RunBad(e, a)
      [] e.op = "save" -> SaveBad(e, a)
      [] e.op = "load" -> LoadBad(e, a)
      [] e.op = "slcmp" -> CmpBad(e, a)
      [] e.op = "savefail" -> SaveFailBad(e, a)
      [] OTHER -> {"unknown operation"}

Bads(k) ==
    LET e == Tr.ev[k] IN
    IF e.op = "init" THEN InitBad(e) \cup (IF e.exc = "" THEN StateBad(e.st) ELSE {})
    ELSE EvBad(e, Tr.ev[k - 1].st) \cup StateBad(e.st)

Init == t \in 1..Len(Traces) /\ i = 0
Step == /\ i < Len(Tr.ev)
        /\ i' = i + 1
        /\ \A c \in Bads(i + 1) : PrintT(<<"@BAD", Tr.tid, i + 1, c>>)
        /\ UNCHANGED t
Done == /\ i = Len(Tr.ev)
        /\ PrintT(<<"@DONE", Tr.tid>>)
        /\ i' = i + 1
        /\ UNCHANGED t
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
