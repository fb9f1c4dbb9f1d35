------------------------------- MODULE Sampling -------------------------------
(* Sampling from, rounding to and membership in a search space.               *)
EXTENDS ATCore

\* nearest multiple of the precision, moved to the bounds if it lies outside
Nearest(v, pr) == LET k == (2 * v + pr) \div (2 * pr) IN k * pr
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Round(v, d) == IF d.pr = 0 THEN v ELSE Clip(Nearest(v, d.pr), d.lo, d.hi)
IsTie(v, d) == d.pr > 0 /\ (2 * v + d.pr) % (2 * d.pr) = 0

\* the admissible values of a discrete declaration
Values(d) == IF d.k = "int" THEN {d.lo + k * d.st : k \in 0..((d.hi - d.lo) \div d.st)} ELSE 1..d.nl

RowOk(space, row) == Len(row) = Len(space) /\ \A i \in DOMAIN space : InVar(space[i], row[i])

\* 2^k - 1 values in as many different of 2^k slices
SobolOk(sl, n) == Len(sl) = n /\ Cardinality(Range1(sl)) = n /\ Range1(sl) \subseteq 0..n
\* a large sample reaches every tenth of the range, none much too often
TenthsOk(w, n) == \A k \in DOMAIN w : 40 * w[k] >= n /\ 4 * w[k] <= n
\* exactly one value in each of the n slices 0..n-1
LhsOk(sl, n) == Len(sl) = n /\ Range1(sl) = 0..(n - 1)

\* range membership (numbers): v is in units, b # 0 means strictly above v
InRange(d, v, b) == IF d.k = "real" THEN v >= d.lo /\ (v < d.hi \/ (v = d.hi /\ b = 0))
                    ELSE IF d.k = "int" THEN b = 0 /\ v >= d.lo /\ v <= d.hi /\ (v - d.lo) % d.st = 0
                    ELSE v \in 1..d.nl
=============================================================================
