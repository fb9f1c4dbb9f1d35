------------------------------- MODULE ATCore -------------------------------
(***************************************************************************)
(* The state of an ask/tell optimizer and the effect of its operations, as *)
(* pure operators.  They are used by the design model (AskTell), by the    *)
(* generator of behaviours (AskTellGen) and by the trace specification     *)
(* (AskTellTrace), so the very same definitions are model checked and then *)
(* compared with the real code.                                            *)
(*                                                                         *)
(* Objective values are integer codes; codes at or above NonFin stand for  *)
(* NaN and the infinities.  An observation is [p |-> point, y |-> vector]. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

UNKNOWN == 999999          \* a value the code made up, or an undefined entry
NonFin  == 1000000         \* codes above it: NaN, +inf, -inf
NaN     == 1000001

IsFin(c)  == c < 900000
AllFin(y) == \A k \in DOMAIN y : IsFin(y[k])

Range1(s) == {s[i] : i \in DOMAIN s}
SumLen(s) == Len(s)

---------------------------------------------------------------------------
(* History                                                                  *)
Obs(pts, ys)  == [i \in 1..Len(pts) |-> [p |-> pts[i], y |-> ys[i]]]
Kept(pts, ys) == SelectSeq(Obs(pts, ys), LAMBDA o : AllFin(o.y))

\* a single-objective history the model cannot be fitted to (explicit error)
Flat(hist, nobj) == /\ nobj = 1
                    /\ Len(hist) > 5
                    /\ \A i \in DOMAIN hist : hist[i].y = hist[1].y

---------------------------------------------------------------------------
(* Incumbent of a single-objective history                                  *)
Better(a, b, mn) == IF mn THEN a < b ELSE a > b

BestIdx(hist, mn) ==
    CHOOSE i \in DOMAIN hist :
        /\ \A j \in DOMAIN hist : ~Better(hist[j].y[1], hist[i].y[1], mn)
        /\ \A j \in DOMAIN hist : j < i => Better(hist[i].y[1], hist[j].y[1], mn)
BestVal(hist, mn) == hist[BestIdx(hist, mn)].y[1]

(* Non-dominated set of a multi-objective history                           *)
Dominates(a, b, mns) ==
    /\ \A k \in DOMAIN a : ~Better(b[k], a[k], mns[k])
    /\ \E k \in DOMAIN a : Better(a[k], b[k], mns[k])
FrontIdx(hist, mns) ==
    {i \in DOMAIN hist : \A j \in DOMAIN hist : ~Dominates(hist[j].y, hist[i].y, mns)}
FrontVals(hist, mns) == {hist[i].y : i \in FrontIdx(hist, mns)}

\* a list of observations that presents the front: every distinct vector once
IsFront(sol, hist, mns) ==
    /\ {sol[i].y : i \in DOMAIN sol} = FrontVals(hist, mns)
    /\ Len(sol) = Cardinality(FrontVals(hist, mns))
    /\ \A i \in DOMAIN sol : \E j \in DOMAIN hist : hist[j].p = sol[i].p /\ hist[j].y = sol[i].y

(* what a recommendation has to be *)
IsRec(sol, hist, mns, nobj) ==
    IF hist = <<>> THEN sol = <<>>
    ELSE IF nobj = 1
         THEN LET b == hist[BestIdx(hist, mns[1])]
              IN Len(sol) = 1 /\ sol[1].p = b.p /\ sol[1].y = b.y
         ELSE IsFront(sol, hist, mns)

(* what an entry of the record of best values has to be (a list of vectors) *)
IsBestEntry(e, hist, mns, nobj) ==
    IF nobj = 1
    THEN e = <<<<BestVal(hist, mns[1])>>>>
    ELSE /\ Range1(e) = FrontVals(hist, mns)
         /\ Len(e) = Cardinality(FrontVals(hist, mns))

---------------------------------------------------------------------------
(* Stop test: the reasons, given budget (0: none) and target (UNKNOWN: none)*)
BudgetHit(evals, budget) == budget > 0 /\ evals >= budget
TargetHit(hist, mns, nobj, target) ==
    /\ target # UNKNOWN /\ nobj = 1 /\ hist # <<>>
    /\ Better(BestVal(hist, mns[1]), target, mns[1])
Stopped(hist, evals, mns, nobj, budget, target) ==
    BudgetHit(evals, budget) \/ TargetHit(hist, mns, nobj, target)

---------------------------------------------------------------------------
(* Effect of a report.  `fe` counts evaluations of single objectives.       *)
TellHist(hist, pts, ys)            == hist \o Kept(pts, ys)
TellEvals(evals, n, nobj, warm)    == IF warm THEN evals ELSE evals + n * nobj

---------------------------------------------------------------------------
(* Ranks: the order type of a column of values, with or without reversal    *)
Rank(col, v, rev) ==
    1 + Cardinality({w \in Range1(col) : IF rev THEN w > v ELSE w < v})
Ranks(col, rev) == [i \in DOMAIN col |-> Rank(col, col[i], rev)]
Column(hist, k) == [i \in DOMAIN hist |-> hist[i].y[k]]

(* the values the surrogate has to be fitted to, as ranks per objective; the
   multi-objective optimizers maximize internally *)
FitRanks(hist, mns, nobj) ==
    LET rk == [k \in 1..nobj |-> Ranks(Column(hist, k), nobj > 1 /\ mns[k])]
    IN [i \in DOMAIN hist |-> [k \in 1..nobj |-> rk[k][i]]]

---------------------------------------------------------------------------
(* Admissible values.  A declaration is [k, lo, hi, st, pr, nl]; a value is
   [t |-> kind, a |-> floor in units / integer / level, b |-> 0 if exact,
    q |-> identity].                                                        *)
InVar(d, e) ==
    CASE d.k = "real" ->
            /\ e.t = "float"
            /\ e.a >= d.lo
            /\ (e.a < d.hi \/ (e.a = d.hi /\ e.b = 0))
            /\ (d.pr = 0 \/ (e.b = 0 /\ (e.a % d.pr = 0 \/ e.a = d.lo \/ e.a = d.hi)))
      [] d.k = "int" ->
            /\ e.t = "int" /\ e.b = 0
            /\ e.a >= d.lo /\ e.a <= d.hi
            /\ (e.a - d.lo) % d.st = 0
      [] OTHER -> e.a >= 1 /\ e.a <= d.nl

\* the space has an unrestricted real variable outside the index set F
HasFreeReal(space, F) == \E i \in DOMAIN space : i \notin F /\ space[i].k = "real" /\ space[i].pr = 0

Feasible(pt) == /\ \A i \in DOMAIN pt.g : pt.g[i] <= 0
                /\ \A i \in DOMAIN pt.h : pt.h[i] <= 100000

(* multiset equality of two sequences *)
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A x \in Range1(a) \cup Range1(b) :
         Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})
=============================================================================
