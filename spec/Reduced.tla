------------------------------- MODULE Reduced -------------------------------
(***************************************************************************)
(* Optimization in a reduced (principal-component) space.                  *)
(*  - penalized criterion: a reduced point is mapped back; inside the box  *)
(*    it has the criterion's value, outside minus the total excess, whose  *)
(*    slope leads back to the box.  Components are signed unit vectors, so *)
(*    that everything is exact in integers.                                *)
(*  - the weighted linear map: points weigh ln N - ln rank (ties share the *)
(*    mean rank), so only the order of the values matters.                 *)
(*  - history of the optimizer: what is reported is recorded in original   *)
(*    coordinates.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)

(* component j is sign(comp[j]) * unit vector |comp[j]| *)
Back(z, comp, c) ==
    [i \in DOMAIN c |-> c[i] + SumF([j \in DOMAIN comp |-> IF Abs(comp[j]) = i THEN Sgn(comp[j]) * z[j] ELSE 0], Len(comp))]
Excess(x, lo, hi) == IF x < lo THEN lo - x ELSE IF x > hi THEN x - hi ELSE 0
Total(x, lo, hi) == SumF([i \in DOMAIN x |-> Excess(x[i], lo[i], hi[i])], Len(x))
(* slope of the penalty along the components *)
Slope(x, lo, hi, comp) ==
    [j \in DOMAIN comp |-> LET i == Abs(comp[j]) IN
        Sgn(comp[j]) * (IF x[i] < lo[i] THEN 1 ELSE IF x[i] > hi[i] THEN -1 ELSE 0)]

(* twice the mean rank, the best first *)
Rank2(ys, mn, i) ==
    LET before == Cardinality({k \in DOMAIN ys : IF mn THEN ys[k] < ys[i] ELSE ys[k] > ys[i]})
        same == Cardinality({k \in DOMAIN ys : ys[k] = ys[i]})
    IN 2 * before + same + 1
(* 1000 * ln(k/2), k = 1..20 *)
Ln2(k) == <<-693, 0, 405, 693, 916, 1099, 1253, 1386, 1504, 1609, 1705, 1792, 1872, 1946, 2015, 2079, 2140, 2197, 2251, 2303>>[k]
Weight(ys, mn, i) == Ln2(2 * Len(ys)) - Ln2(Rank2(ys, mn, i))
(* sum of the weights, and N * sum of weight * (x - mean) per coordinate *)
WSum(ys, mn) == SumF([i \in DOMAIN ys |-> Weight(ys, mn, i)], Len(ys))
Moment(X, ys, mn, k) ==
    LET N == Len(X)
        S == SumF([i \in DOMAIN X |-> X[i][k]], N)
    IN SumF([i \in DOMAIN X |-> Weight(ys, mn, i) * (N * X[i][k] - S)], N)

NAN == 1000001
Best(ys, mn) == {i \in DOMAIN ys : \A k \in DOMAIN ys : IF mn THEN ys[i] <= ys[k] ELSE ys[i] >= ys[k]}
=============================================================================
