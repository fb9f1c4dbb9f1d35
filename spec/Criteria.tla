------------------------------- MODULE Criteria -------------------------------
(***************************************************************************)
(* Which criteria a model-based request builds.  Parameters are integers   *)
(* (millionths).  A configuration c has                                    *)
(*   fun    criterion ("MULTI": the portfolio of two criteria)             *)
(*   kind   "const", "exp", "linear", "self"                               *)
(*   base   configured value (initial value of a schedule)                 *)
(*   tf, maxit, p, q   final value, planned number of requests, and the    *)
(*          factor p/q of the geometric schedule                           *)
(*   mn     direction                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CAP == 22360000         \* MGFI limits its parameter
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= 3 + Abs(b) \div 200000
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE Geo(_, _, _, _)
Geo(b, p, q, k) == IF k = 0 THEN b ELSE Geo((b * p) \div q, p, q, k - 1)

(* configured value in effect at the (k+1)-st model-based request           *)
Base(c, k) ==
    CASE c.kind = "exp" -> Geo(c.base, c.p, c.q, k)
      [] c.kind = "linear" -> IF k >= c.maxit THEN c.tf ELSE c.base - (k * (c.base - c.tf)) \div c.maxit
      [] OTHER -> c.base

Improvement == {"EI", "PI", "EpsilonPI", "MGFI"}
ParOf(x) == CASE x.cls = "MGFI" -> x.t [] x.cls = "UCB" -> x.alpha [] x.cls = "EpsilonPI" -> x.eps [] OTHER -> 0

(* Adaptation: mean of the parameters of the better half of the candidates  *)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE x \in S : TRUE IN f[j] + SumOver(f, S \ {j})
Halves(n) == {S \in SUBSET (1..n) : Cardinality(S) = n \div 2}
BestHalves(vals) == {S \in Halves(Len(vals)) : \A a \in S : \A b \in (1..Len(vals)) \ S : vals[a] >= vals[b]}
IsAdapted(t, ts, vals) == \E S \in BestHalves(vals) : Near(t, SumOver(ts, S) \div Cardinality(S))

(* Samples lie around the configured value: a fifth to four fifths of them below it *)
Around(S, below) == Cardinality(S) < 60 \/ (5 * Cardinality(below) >= Cardinality(S) /\ 5 * Cardinality(below) <= 4 * Cardinality(S))
=============================================================================
