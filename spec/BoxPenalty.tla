----------------------------- MODULE BoxPenalty -----------------------------
(***************************************************************************)
(* Mirror reflection into a box, coordinate by coordinate, and the dynamic *)
(* penalty of constraint violations.  Integer units throughout.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 1000000

(* closed form *)
Reflect1(x, lo, hi) ==
    IF lo <= -INF \/ hi >= INF THEN x
    ELSE LET w == hi - lo
             r == (x - lo) % (2 * w)
         IN IF r <= w THEN lo + r ELSE hi - (r - w)
Reflect(x, lo, hi) == [k \in DOMAIN x |-> Reflect1(x[k], lo[k], hi[k])]

(* operational form: mirror at the violated bound until inside *)
RECURSIVE Mirror(_, _, _)
Mirror(x, lo, hi) == IF x < lo THEN Mirror(2 * lo - x, lo, hi)
                     ELSE IF x > hi THEN Mirror(2 * hi - x, lo, hi)
                     ELSE x

(* penalty * 320: h in units of 1/20, g = sg * k^2/4, C = c/2 *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Pow(k, beta2) == CASE beta2 = 2 -> 4 * k * k          \* 16 (k^2/4)^(beta2/2)
                   [] beta2 = 3 -> 2 * k * k * k
                   [] beta2 = 4 -> k * k * k * k
HTerm(h, eps) == IF Abs(h) <= eps THEN 0 ELSE Abs(h)
GTerm(g, beta2) == IF g <= 0 THEN 0 ELSE Pow(g, beta2)
Coef(c, t, alpha) == IF alpha = 1 THEN 2 * c * t ELSE c * c * t * t
Penalty(row, p) ==
    LET H == [i \in DOMAIN row.h |-> HTerm(row.h[i], p.eps)]
        G == [i \in DOMAIN row.g |-> GTerm(row.g[i], p.beta2)]
        v == Coef(p.c, p.t, p.alpha) * (4 * Sum(H, Len(H)) + 5 * Sum(G, Len(G)))
    IN IF p.mn THEN v ELSE -v
Ok(row, p) == /\ \A i \in DOMAIN row.h : Abs(row.h[i]) <= p.eps
              /\ \A i \in DOMAIN row.g : row.g[i] <= 0
=============================================================================
