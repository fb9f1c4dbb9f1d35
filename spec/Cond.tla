-------------------------------- MODULE Cond --------------------------------
(* Conditional search spaces.  A space is a sequence of declarations
   [k |-> kind, p |-> selector (0: none), v |-> level of the selector under
   which the variable is active]; K is the set of variables present.         *)
EXTENDS Integers, Sequences, FiniteSets

Levels(k) == CASE k = "real" -> 0 [] k = "sub" -> 0 [] k = "bool" -> 2 [] k = "int" -> 4 [] OTHER -> 3
Closed(S, K) == \A i \in K : S[i].p # 0 => S[i].p \in K
Kids(S, K, i) == {j \in K : S[j].p = i}
Selectors(S, K) == {i \in K : Kids(S, K, i) # {}}
Branches(S, K, i) == {S[j].v : j \in Kids(S, K, i)}

\* a combination assigns a level to every active selector and 0 to the others
Active(S, a, i) == IF S[i].p = 0 THEN TRUE ELSE a[S[i].p] = S[i].v
IsCombo(S, K, a) == \A i \in Selectors(S, K) :
    IF Active(S, a, i) THEN a[i] \in Branches(S, K, i) ELSE a[i] = 0
MaxLevel(S, K) == IF \E i \in K : S[i].v > 0 THEN CHOOSE m \in {S[i].v : i \in K} : \A i \in K : S[i].v <= m ELSE 0
Combos(S, K) == {a \in [Selectors(S, K) -> 0..MaxLevel(S, K)] : IsCombo(S, K, a)}
Plain(S, K, a) == {i \in K \ Selectors(S, K) : Active(S, a, i)}

(* the same by walking the trees: combinations below one selector            *)
RECURSIVE Walk(_, _, _)
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
RECURSIVE Product(_, _, _)
Product(S, K, R) == IF R = {} THEN {<<>>}
                    ELSE LET i == CHOOSE i \in R : TRUE
                         IN {Merge(f, g) : f \in Walk(S, K, i), g \in Product(S, K, R \ {i})}
Walk(S, K, i) == IF Kids(S, K, i) = {} THEN {<<>>}
                 ELSE UNION {{Merge([x \in {i} |-> b], f) : f \in Product(S, K, {j \in Kids(S, K, i) : S[j].v = b})}
                             : b \in Branches(S, K, i)}
Total(S, K, f) == [x \in Selectors(S, K) |-> IF x \in DOMAIN f THEN f[x] ELSE 0]
Walked(S, K) == {Total(S, K, f) : f \in Product(S, K, {i \in K : S[i].p = 0})}

(* ------------------------- the conditional optimizer --------------------- *)
Fresh(combos, seen, n) == IF Cardinality(combos \ seen) < n THEN Cardinality(combos \ seen) ELSE n
\* a batch cs of combinations may be proposed after `seen`
BatchOK(combos, seen, cs) ==
    /\ \A i \in DOMAIN cs : cs[i] \in combos
    /\ \A i \in DOMAIN cs :
         LET before == seen \cup {cs[j] : j \in 1..(i - 1)}
         IN cs[i] \in before => before = combos
=============================================================================
