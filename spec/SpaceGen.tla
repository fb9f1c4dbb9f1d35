------------------------------- MODULE SpaceGen -------------------------------
(* Sequences of operations on a few registers holding search spaces.         *)
EXTENDS Space, Json
CONSTANTS Regs, DeclName, MaxLen, Depth, Ops
VARIABLES R, log, done
vars == <<R, log, done>>

Ds == DOMAIN DeclName
\* the targets while there are operations left (state dependent, so that TLC takes every
\* operation below as one action)
Targets == IF Len(log) < Depth THEN Regs ELSE {}
Init == R = [r \in Regs |-> <<>>] /\ log = <<>> /\ done = FALSE

Apply(o) ==
    LET s == Result(R, o, DeclName) IN
    /\ Len(s) <= MaxLen
    /\ R' = [R EXCEPT ![o.t] = Norm(s)]
    /\ log' = Append(log, o)
    /\ UNCHANGED done
On(x) == x \in Ops
Idx(a) == 1..Len(R[a])
InTwo(t) == \E b \in Regs : \E k \in {"iadd", "isub", "update"} : On(k) /\ Apply([op |-> k, t |-> t, b |-> b])
NewS == On("new") /\ \E t \in Targets : \E n \in 1..3 : \E d \in Ds : \E k, l \in {0, 1, 2, 5, 7, 11, 14} :
          /\ (n < 3 => l = 0) /\ (n < 2 => k = 0)
          /\ Apply([op |-> "new", t |-> t, ds |-> SubSeq(<<d, ((d + k) % Cardinality(Ds)) + 1, ((d + l) % Cardinality(Ds)) + 1>>, 1, n)])
Two == \E t \in Targets : \E a, b \in Regs : \E k \in {"add", "sub", "concat"} : On(k) /\ Apply([op |-> k, t |-> t, a |-> a, b |-> b])
Three == On("concat3") /\ \E t \in Targets : \E a, b, c \in Regs : Apply([op |-> "concat3", t |-> t, a |-> a, b |-> b, c |-> c])
Two2 == \E t \in Targets : InTwo(t)
MulS == On("mul") /\ \E t \in Targets : \E a \in Regs : \E n \in 1..3 : Apply([op |-> "mul", t |-> t, a |-> a, n |-> n, left |-> (n = 2)])
IMulS == On("imul") /\ \E t \in Targets : \E n \in 1..2 : Apply([op |-> "imul", t |-> t, n |-> n])
PickS == On("pick") /\ \E t \in Targets : \E a \in Regs : \E n \in 0..3 : \E f \in {"int", "names", "mask", "slice", "arr"} :
          \E p \in [1..n -> Idx(a)] :
            /\ (f \in {"mask", "slice"} => \A i, j \in 1..n : i < j => p[i] < p[j])
            /\ (f = "slice" => \A i \in 1..(n - 1) : p[i + 1] = p[i] + 1)
            /\ Apply([op |-> "pick", t |-> t, a |-> a, idx |-> p, f |-> f])
\* contiguous parts of any size, the whole space included
RangeS == On("range") /\ \E t \in Targets : \E a \in Regs : \E i, j \in Idx(a) : \E f \in {"int", "names", "mask", "slice", "arr"} :
            /\ i <= j
            /\ Apply([op |-> "pick", t |-> t, a |-> a, idx |-> [k \in 1..(j - i + 1) |-> i + k - 1], f |-> f])
\* everything, in order, reversed, or all but one end
WholeS == On("whole") /\ \E t \in Targets : \E a \in Regs : \E f \in {"int", "names", "mask", "slice", "arr"} : \E r \in {"all", "rev", "but"} :
            LET n == Len(R[a]) IN
            /\ n > 1 /\ (r = "rev" => f \in {"int", "names", "arr"})
            /\ Apply([op |-> "pick", t |-> t, a |-> a, f |-> f,
                      idx |-> [k \in 1..(IF r = "but" THEN n - 1 ELSE n) |-> IF r = "rev" THEN n - k + 1 ELSE k]])
WholeF == On("whole") /\ \E t \in Targets : \E a \in Regs : \E v \in BOOLEAN : \E n \in {0, Len(R[a]) - 1, Len(R[a])} :
            /\ n >= 0
            /\ Apply([op |-> "filter", t |-> t, a |-> a, idx |-> [k \in 1..n |-> k], inv |-> v])
FilterS == On("filter") /\ \E t \in Targets : \E a \in Regs : \E K \in SUBSET Idx(a) : \E v \in BOOLEAN :
          Apply([op |-> "filter", t |-> t, a |-> a, idx |-> [k \in 1..Cardinality(K) |-> CHOOSE x \in K :
                    Cardinality({y \in K : y < x}) = k - 1], inv |-> v])
TripS == \E t \in Targets : \E a \in Regs : \E k \in {"dict", "json"} : On(k) /\ Apply([op |-> k, t |-> t, a |-> a])
CloneS == On("clone") /\ \E t \in Targets : \E a \in Regs : \E f \in {"copy", "pickle", "space", "from"} :
          Apply([op |-> "clone", t |-> t, a |-> a, f |-> f])
DropS == \E t \in Targets : \E i \in Idx(t) : \E k \in {"remove", "pop"} : \E f \in {"int", "name"} :
          On(k) /\ (k = "pop" => f = "int") /\ Apply([op |-> k, t |-> t, i |-> i, f |-> f])
SetS == On("set") /\ \E t \in Targets : \E i \in Idx(t) : \E d \in Ds : \E f \in {"int", "name", "list"} :
          Apply([op |-> "set", t |-> t, i |-> i, d |-> d, f |-> f])
\* a copy of another space, with one declaration exchanged for one of the same name
TwinS == On("twin") /\ \E t \in Targets : \E a \in Regs : \E i \in Idx(a) : \E d \in Ds :
          /\ a # t /\ DeclName[d] = DeclName[R[a][i].d]
          /\ Apply([op |-> "twin", t |-> t, a |-> a, i |-> i, d |-> d])
PutsS == On("puts") /\ \E t \in Targets : \E i, j \in Idx(t) : \E d \in Ds : \E k \in {0, 5} : \E f \in {"int", "name", "slice", "one"} :
          LET e == ((d + k) % Cardinality(Ds)) + 1 IN
          /\ i # j /\ (f = "slice" => j = i + 1) /\ (f = "one" => k = 0)
          /\ Apply([op |-> "puts", t |-> t, idx |-> <<i, j>>, ds |-> IF f = "one" THEN <<d, d>> ELSE <<d, e>>, f |-> f])
FamS == On("fam") /\ \E t \in Targets : \E d \in Ds : \E n \in 1..3 : \E nm \in {"x", "i", "v"} : \E f \in {"list", "scalar"} :
          Apply([op |-> "fam", t |-> t, d |-> d, n |-> n, nm |-> nm, f |-> f])
ExpandS == On("expand") /\ \E t \in Targets : \E d \in Ds : \E k \in {0, 3, 8} : \E n \in 1..3 : \E al \in 0..2 :
          LET e == ((d + k) % Cardinality(Ds)) + 1 m == 1 + ((n + k) % 3) IN
          /\ DeclName[d] # DeclName[e]
          /\ Apply([op |-> "expand", t |-> t, es |-> <<[d |-> d, n |-> n], [d |-> e, n |-> m]>>, al |-> al])
RenameS == On("rename") /\ \E t \in Targets : \E k \in 1..3 :
          Apply([op |-> "rename", t |-> t, nms |-> [i \in Idx(t) |-> <<"q", "w", "x">>[k] \o ToString(i - 1)]])
Fin == /\ Len(log) = Depth /\ ~done
       /\ done' = TRUE /\ UNCHANGED <<R, log>>
       /\ PrintT(<<"@CASE", ToJson(log)>>)
Next == NewS \/ Two \/ Three \/ Two2 \/ MulS \/ IMulS \/ PickS \/ RangeS \/ WholeS \/ WholeF \/ FilterS \/ TripS \/ CloneS \/ DropS \/ SetS \/ TwinS \/ PutsS \/ FamS \/ ExpandS \/ RenameS \/ Fin
Spec == Init /\ [][Next]_vars
View == R   \* design exploration identifies states by the registers

(* laws of the algebra *)
AlwaysUnique == \A r \in Regs : Unique(R[r]) /\ Len(R[r]) <= MaxLen
AlgebraLaws == \A a, b \in Regs :
    LET A == R[a] B == R[b] IN
    /\ (Names(A) \cap Names(B) = {} => Sub(Add(A, B), B) = A /\ Norm(Add(A, B)) = Add(A, B))
    /\ Names(Sub(A, B)) = Names(A) \ Names(B)
    /\ Len(Mul(A, 3)) = 3 * Len(A)
    /\ Unique(Update(A, B)) /\ Names(Update(A, B)) = Names(A) \cup Names(B)
    /\ Update(Update(A, B), B) = Update(A, B)
    /\ Presents(Norm(A \o B), A \o B) /\ NamesOk(Norm(A \o B), A \o B)
    /\ \A K \in SUBSET DOMAIN A : Len(Filter(A, K, TRUE)) + Len(Filter(A, K, FALSE)) = Len(A)
    /\ Sub(A, A) = <<>>
=============================================================================
