----------------------------- MODULE ContainerGen -----------------------------
EXTENDS Container, Json
CONSTANTS Regs, Cols, MaxRows, Depth, Ops, NObj
VARIABLES S, log, done
vars == <<S, log, done>>

Empty == [rows |-> <<>>, cols |-> Cols, one |-> FALSE, k |-> NObj]
Init == /\ S = [heap |-> <<>>, regs |-> [r \in Regs |-> Empty]]
        /\ log = <<>> /\ done = FALSE
\* state dependent, so that TLC takes every operation below as one action
T == IF Len(log) < Depth THEN Regs ELSE {}
Full(r) == S.regs[r].rows # <<>>
Src == {r \in Regs : Full(r) /\ Len(log) < Depth}
Apply(o) == /\ o.op \in Ops
            /\ S' = Do(S, o) /\ log' = Append(log, o) /\ UNCHANGED done
            /\ \A r \in Regs : Len(S'.regs[r].rows) <= MaxRows
Vec(b) == [j \in 1..NObj |-> b + 10 * j]
\* m: 1 nothing given, 2 attributes per row, 3 indices as well, 4 one value for all rows
Fresh(n, m, one) == [i \in 1..n |->
    LET a == Len(S.heap) + i IN
    [x |-> [c \in RangeOf(Cols) |-> 100 * a + (CHOOSE j \in DOMAIN Cols : Cols[j] = c)],
     y |-> IF m = 1 THEN [j \in 1..NObj |-> 999999] ELSE Vec(1000 * (IF m = 4 THEN Len(S.heap) + 1 ELSE a)),
     n |-> IF m = 1 THEN 0 ELSE IF m = 4 THEN Len(S.heap) + 1 ELSE a,
     ix |-> IF m = 3 \/ (m = 4 /\ one) THEN "id" \o ToString(a) ELSE ToString(i - 1)]]
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}
Seqs(n, k) == UNION {[1..l -> 1..n] : l \in 1..k}
Asc(p) == \A i, j \in DOMAIN p : i < j => p[i] < p[j]
Contig(p) == \A i \in DOMAIN p : i < Len(p) => p[i + 1] = p[i] + 1

NewC == \E t \in T : \E n \in 1..3 : \E m \in 1..4 : \E one \in BOOLEAN : \E p \in Perms(Len(Cols)) :
          /\ (one => n = 1)
          /\ Apply([op |-> "new", t |-> t, cells |-> Fresh(n, m, one), cols |-> [i \in DOMAIN p |-> Cols[p[i]]], one |-> one,
                    k |-> NObj, m |-> m])
RowsC == \E t \in T : \E a \in Src : \E f \in {"slice", "rev", "int", "neg", "npint", "list", "mask", "arr"} :
         \E p \in Seqs(Len(S.regs[a].rows), 3) :
          /\ ~S.regs[a].one
          /\ (f \in {"slice"} => Contig(p)) /\ (f = "mask" => Asc(p)) /\ (f \in Ones => Len(p) = 1)
          /\ (f = "rev" => p = [i \in 1..Len(S.regs[a].rows) |-> Len(S.regs[a].rows) + 1 - i])
          /\ Apply([op |-> "rows", t |-> t, a |-> a, f |-> f, idx |-> p])
ColsC == \E t \in T : \E a \in Src : \E f \in {"slice", "int", "neg", "npint", "list", "mask"} :
         \E p \in Seqs(Len(S.regs[a].cols), 3) :
          /\ (f = "slice" => Contig(p)) /\ (f \in Ones => Len(p) = 1 /\ ~S.regs[a].one)
          /\ (f = "mask" => Asc(p))
          /\ \A i, j \in DOMAIN p : p[i] = p[j] => i = j
          /\ Apply([op |-> "cols", t |-> t, a |-> a, f |-> f, idx |-> p])
RcC == \E t \in T : \E a \in Src : \E i \in 1..Len(S.regs[a].rows) : \E f \in {"slice", "list"} :
       \E p \in Seqs(Len(S.regs[a].cols), 3) :
          /\ ~S.regs[a].one /\ (f = "slice" => Contig(p)) /\ \A k, j \in DOMAIN p : p[k] = p[j] => k = j
          /\ Apply([op |-> "rc", t |-> t, a |-> a, i |-> i, f |-> f, idx |-> p])
AddC == \E t \in T : \E a \in Src : \E b \in Src : \E f \in {"add", "iadd"} :
          /\ RangeOf(S.regs[a].cols) = RangeOf(S.regs[b].cols)
          /\ (f = "iadd" => t = a)
          /\ Apply([op |-> "add", t |-> t, a |-> a, b |-> b, f |-> f])
MulC == \E t \in T : \E a \in Src : \E n \in 1..3 :
          /\ Len(S.regs[a].rows) = 1
          /\ Apply([op |-> "mul", t |-> t, a |-> a, n |-> n, f |-> IF n = 2 THEN "left" ELSE "right"])
CopyC == \E t \in T : \E a \in Src : \E f \in {"copy", "deep", "shallow"} : Apply([op |-> "copy", t |-> t, a |-> a, f |-> f])
UniqC == \E t \in T : \E a \in Src : Apply([op |-> "uniq", t |-> t, a |-> a])
FromC == \E t \in T : \E a \in Src : \E p \in Perms(Len(S.regs[a].cols)) :
          Apply([op |-> "fromd", t |-> t, a |-> a, idx |-> p])
Val(what, b) == CASE what = "fitness" -> Vec(b) [] what = "n_eval" -> b [] OTHER -> "new" \o ToString(b)
SetC == \E t \in T : \E a \in Src : \E what \in {"fitness", "n_eval", "index"} : \E f \in {"each", "scalar"} :
          LET b == 50000 + 10 * Len(log) IN
          /\ t = a
          /\ (f = "scalar" => what # "fitness" \/ NObj = 1)
          /\ Apply([op |-> "set", a |-> a, what |-> what, f |-> f,
                    vals |-> [i \in DOMAIN S.regs[a].rows |-> Val(what, IF f = "each" THEN b + i ELSE b)]])
RSetC == \E t \in T : \E a \in Src : \E i \in 1..Len(S.regs[a].rows) : \E what \in {"fitness", "n_eval", "index"} :
         \E f \in {"int", "neg", "slice"} :
          /\ t = a /\ ~S.regs[a].one
          /\ Apply([op |-> "rset", a |-> a, i |-> i, f |-> f, what |-> what,
                    vals |-> <<Val(what, 70000 + 10 * Len(log))>>])
BumpC == \E t \in T : \E a \in Src : t = a /\ ~S.regs[a].one
          /\ Cardinality(RangeOf(S.regs[a].rows)) = Len(S.regs[a].rows)
          /\ Apply([op |-> "bump", a |-> a])
Fin == /\ Len(log) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<S, log>>
       /\ PrintT(<<"@CASE", ToJson(log)>>)
Next == NewC \/ RowsC \/ ColsC \/ RcC \/ AddC \/ MulC \/ CopyC \/ UniqC \/ FromC \/ SetC \/ RSetC \/ BumpC \/ Fin
Spec == Init /\ [][Next]_vars
View == <<S, Len(log)>>

(* laws: every container stays well-formed, a step changes only the register *)
(* it names and the attributes of rows shared with the assigned container    *)
WellFormed == \A r \in Regs : LET c == S.regs[r] IN
    /\ \A i \in DOMAIN c.rows : c.rows[i] \in DOMAIN S.heap
    /\ (c.one => Len(c.rows) = 1)
    /\ \A i \in DOMAIN c.rows : Len(Cell(S, c, i).y) = c.k
Local == [][ LET o == log'[Len(log')] IN
             Len(log') > Len(log) =>
               IF o.op \in {"set", "rset", "bump"}
               THEN /\ S'.regs = S.regs
                    /\ \A r \in Regs : RangeOf(S.regs[r].rows) \cap RangeOf(S.regs[o.a].rows) = {} =>
                          Seen(S', S'.regs[r]) = Seen(S, S.regs[r])
               ELSE \A r \in Regs : r # o.t => Seen(S', S'.regs[r]) = Seen(S, S.regs[r]) ]_vars
\* values belong to their row and column for ever
XStable == [][\A a \in DOMAIN S.heap : S'.heap[a].x = S.heap[a].x]_vars
=============================================================================
