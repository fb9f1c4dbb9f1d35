----------------------------- MODULE Acquisition -----------------------------
(***************************************************************************)
(* Acquisition criteria over integer predictions.  A query is              *)
(*   [m |-> predicted value, s |-> standard deviation, pl |-> incumbent,   *)
(*    mn |-> minimize]                                                     *)
(* for a criterion [f |-> name, par |-> parameter].  The normal            *)
(* distribution and the exponential enter through tables at multiples of   *)
(* one half, so the defining formulas are exact up to rounding.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Pareto

\* Phi(k/2), phi(k/2) in units of 1e-6, k = 0..8
PhiT == <<500000, 691462, 841345, 933193, 977250, 993790, 998650, 999767, 999968>>
phiT == <<398942, 352065, 241971, 129518, 53991, 17528, 4432, 873, 134>>
Phi(k) == IF k >= 0 THEN PhiT[k + 1] ELSE 1000000 - PhiT[-k + 1]
phi(k) == phiT[(IF k >= 0 THEN k ELSE -k) + 1]
\* exp(k/2) in units of 1e-4, k = -12..22
ExpT == <<25, 41, 67, 111, 183, 302, 498, 821, 1353, 2231, 3679, 6065, 10000, 16487, 27183, 44817, 73891, 121825, 200855, 331155, 545982, 900171, 1484132, 2446919, 4034288, 6651416, 10966332, 18080424, 29809580, 49147688, 81030839, 133597268, 220264658, 363155027, 598741417>>
ExpH(k) == ExpT[k + 13]

Criteria == {"UCB", "EI", "PI", "EPI", "MGFI"}
Bounded(f) == f \in {"PI", "EPI"}
Improving(f) == f # "UCB"
Explorative(f) == f \in {"UCB", "EI"}

\* the improvement of the prediction over the incumbent, in the direction
Imp(q) == IF q.mn THEN q.pl - q.m ELSE q.m - q.pl
\* twice the standardized improvement, where the tables know it
HasZ(q) == q.s > 0 /\ (2 * Imp(q)) % q.s = 0 /\ (2 * Imp(q)) \div q.s \in -8..8
Z2(q) == (2 * Imp(q)) \div q.s

(* Values in units of 1e-6 (UCB in units of 1/2), parameters in halves.     *)
UcbVal(q, par) == 2 * (IF q.mn THEN -q.m ELSE q.m) + par * q.s
EiVal(q) == Imp(q) * Phi(Z2(q)) + q.s * phi(Z2(q))
PiVal(q) == Phi(Z2(q))
\* epsilon-PI with epsilon = 1/2: the prediction is relaxed by half of its magnitude
Abs0(x) == IF x < 0 THEN -x ELSE x
EpiNum(q) == 2 * Imp(q) + Abs0(q.m)
HasEpi(q, par) == par % 5 = 4 /\ q.s > 0 /\ EpiNum(q) % q.s = 0 /\ EpiNum(q) \div q.s \in -8..8
EpiVal(q) == Phi(EpiNum(q) \div q.s)
\* MGFI in units of 1e-4: Phi(imp / s + t s) exp(t (imp - 1) + t^2 s^2 / 2), t = par / 2
MgfZ(q, par) == Z2(q) + par * q.s                                \* twice the argument of Phi
MgfE4(q, par) == 4 * par * (Imp(q) - 1) + par * par * q.s * q.s  \* eight times the exponent
HasMgf(q, par) == /\ HasZ(q) /\ MgfZ(q, par) \in -8..20
                  /\ (MgfE4(q, par) > 20 => MgfZ(q, par) >= 0)       \* precision of the tables
                  /\ MgfE4(q, par) % 4 = 0 /\ MgfE4(q, par) \div 4 \in -12..22
\* MGFS: the same at a scale so small that the exponential is exp(-t); times exp(t)
MgfVal(q, par) == LET z == MgfZ(q, par)
                      f == IF z > 8 THEN 1000000 ELSE Phi(z)
                      e == ExpH(MgfE4(q, par) \div 4)
                  IN IF e < 100000 THEN ((f \div 100) * e) \div 10000
                     ELSE IF e < 20000000 THEN ((f \div 1000) * (e \div 10)) \div 100
                     ELSE (f \div 1000) * (e \div 1000)

Defined(c, q) == CASE c.f = "UCB" -> TRUE
                   [] c.f \in {"EI", "PI", "MGFS"} -> HasZ(q)
                   [] c.f = "MGFI" -> HasMgf(q, c.par)
                   [] c.f = "EPI" -> IF c.par % 5 \in {0, 1} THEN HasZ(q) ELSE HasEpi(q, c.par)
                   [] OTHER -> FALSE
Val(c, q) == CASE c.f = "UCB" -> UcbVal(q, c.par)
               [] c.f = "EI" -> EiVal(q)
               [] c.f \in {"PI", "MGFS"} -> PiVal(q)
               [] c.f = "EPI" -> IF c.par % 5 \in {0, 1} THEN PiVal(q) ELSE EpiVal(q)
               [] c.f = "MGFI" -> MgfVal(q, c.par)

Mirrored(a, b) == a.m = -b.m /\ a.pl = -b.pl /\ a.s = b.s /\ a.mn # b.mn
\* b predicts at least as good a value as a, everything else equal
BetterMean(a, b) == a.s = b.s /\ a.pl = b.pl /\ a.mn = b.mn /\ (IF a.mn THEN b.m <= a.m ELSE b.m >= a.m)
BetterInc(a, b) == a.s = b.s /\ a.m = b.m /\ a.mn = b.mn /\ (IF a.mn THEN b.pl <= a.pl ELSE b.pl >= a.pl)
MoreSd(a, b) == a.m = b.m /\ a.pl = b.pl /\ a.mn = b.mn /\ b.s >= a.s

(* Laws over two queries and their values; Le(x, y) is the order of values  *)
Laws(c, a, b, x, y, Le(_, _)) ==
    {l \in {"mean", "incumbent", "sd", "mirror"} :
        CASE l = "mean" -> BetterMean(a, b) /\ ~Le(x, y)
          [] l = "incumbent" -> Improving(c.f) /\ BetterInc(a, b) /\ ~Le(y, x)
          [] l = "sd" -> Explorative(c.f) /\ MoreSd(a, b) /\ ~Le(x, y)
          [] l = "mirror" -> Mirrored(a, b) /\ ~(Le(x, y) /\ Le(y, x))}

(* Expected hypervolume improvement with vanishing uncertainty: the          *)
(* hypervolume improvement (maximization)                                    *)
Top(S) == 1 + CHOOSE x \in {v[k] : v \in S, k \in DOMAIN (CHOOSE w \in S : TRUE)} :
                 \A y \in {v[k] : v \in S, k \in DOMAIN (CHOOSE w \in S : TRUE)} : y <= x
HVI(S, mu, ref) == HV(S \cup {mu}, ref, Top(S \cup {mu, ref})) - HV(S, ref, Top(S \cup {mu, ref}))

(* Expected hypervolume improvement for independent normal predictions with   *)
(* standard deviation one: the expected volume gained, summed over the unit   *)
(* cells above the reference point that no point of S dominates, each         *)
(* weighted by the expected length of the part the prediction covers          *)
EIu(d) == IF d > 4 THEN 1000000 * d ELSE IF d < -4 THEN 0 ELSE d * Phi(2 * d) + phi(2 * d)              \* 1e-6
Mul6(a, b) == LET ah == a \div 1000 al == a % 1000 bh == b \div 1000 bl == b % 1000                       \* 1e-6
              IN ah * bh + (ah * bl + al * bh) \div 1000 + (al * bl) \div 1000000
CellW(mu, i, top) == IF i = top THEN EIu(mu - i) ELSE EIu(mu - i) - EIu(mu - i - 1)
RECURSIVE SumOver(_, _)
SumOver(f, C) == IF C = {} THEN 0 ELSE LET x == CHOOSE x \in C : TRUE IN f[x] + SumOver(f, C \ {x})
EHV(S, mu, ref) ==                                                                                      \* 1e-6
    LET n == Len(mu)
        top == Top(S \cup {ref})
        Cs == {i \in [1..n -> -1..top] : (\A k \in 1..n : i[k] >= ref[k]) /\ ~\E v \in S : \A k \in 1..n : v[k] > i[k]}
        W(i, k) == CellW(mu[k], i[k], top)
        f == [i \in Cs |-> IF n = 2 THEN Mul6(W(i, 1), W(i, 2)) ELSE Mul6(Mul6(W(i, 1), W(i, 2)), W(i, 3))]
    IN SumOver(f, Cs)
=============================================================================
