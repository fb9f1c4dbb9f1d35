------------------------------ MODULE Container ------------------------------
(***************************************************************************)
(* Containers of solutions.  The heap holds rows [x, y, n, ix]: values by  *)
(* variable name, objective vector, evaluation count, index.  A container  *)
(* is [rows |-> heap addresses, cols |-> names, one |-> single point,      *)
(* k |-> number of objectives].  Basic indexing shares rows, everything    *)
(* else copies them; "?" is an index the specification leaves open.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOf(s) == {s[i] : i \in DOMAIN s}
Views == {"slice", "rev", "int", "neg", "npint"}
Ones  == {"int", "neg", "npint"}

Cell(S, c, i) == S.heap[c.rows[i]]
SameX(S, c, i, j) == \A v \in RangeOf(c.cols) : Cell(S, c, i).x[v] = Cell(S, c, j).x[v]
NewRows(S, n) == [i \in 1..n |-> Len(S.heap) + i]
WithReg(S, t, c) == [S EXCEPT !.regs[t] = c]
\* append cells and let register t hold them
Alloc(S, t, cells, cols, one, k) ==
    [heap |-> S.heap \o cells,
     regs |-> [S.regs EXCEPT ![t] = [rows |-> NewRows(S, Len(cells)), cols |-> cols, one |-> one, k |-> k]]]
Cells(S, c) == [i \in DOMAIN c.rows |-> S.heap[c.rows[i]]]

\* the values of attribute `what` of the rows of c become vals (a sequence per row)
Assign(S, c, what, vals) ==
    [S EXCEPT !.heap = [a \in DOMAIN S.heap |->
        IF a \in RangeOf(c.rows)
        THEN LET i == CHOOSE j \in DOMAIN c.rows : c.rows[j] = a /\ \A m \in DOMAIN c.rows : c.rows[m] = a => m <= j
             IN CASE what = "fitness" -> [S.heap[a] EXCEPT !.y = vals[i]]
                  [] what = "n_eval"  -> [S.heap[a] EXCEPT !.n = vals[i]]
                  [] OTHER            -> [S.heap[a] EXCEPT !.ix = vals[i]]
        ELSE S.heap[a]]]

Do(S, o) ==
    LET A == IF o.op = "new" THEN S.regs[1] ELSE S.regs[o.a] IN
    CASE o.op = "new"   -> Alloc(S, o.t, o.cells, o.cols, o.one, o.k)
      [] o.op = "rows"  -> LET r == [i \in DOMAIN o.idx |-> A.rows[o.idx[i]]] IN
                           IF o.f \in Views
                           THEN WithReg(S, o.t, [A EXCEPT !.rows = r, !.one = o.f \in Ones])
                           ELSE Alloc(S, o.t, [i \in DOMAIN r |-> S.heap[r[i]]], A.cols, FALSE, A.k)
      [] o.op = "cols"  -> WithReg(S, o.t, [A EXCEPT !.cols = [i \in DOMAIN o.idx |-> A.cols[o.idx[i]]]])
      [] o.op = "rc"    -> WithReg(S, o.t, [A EXCEPT !.rows = <<A.rows[o.i]>>, !.one = TRUE,
                                             !.cols = [i \in DOMAIN o.idx |-> A.cols[o.idx[i]]]])
      [] o.op = "add"   -> Alloc(S, o.t, Cells(S, A) \o Cells(S, S.regs[o.b]), A.cols, FALSE, A.k)
      [] o.op = "mul"   -> Alloc(S, o.t, [i \in 1..o.n |-> [Cell(S, A, 1) EXCEPT !.ix = "?"]], A.cols, FALSE, A.k)
      [] o.op = "copy"  -> Alloc(S, o.t, Cells(S, A), A.cols, A.one, A.k)
      [] o.op = "uniq"  -> IF A.one THEN WithReg(S, o.t, A)
                           ELSE LET f == SelectSeq([i \in DOMAIN A.rows |-> i], LAMBDA i : \A j \in 1..(i - 1) : ~SameX(S, A, i, j))
                                IN Alloc(S, o.t, [i \in DOMAIN f |-> Cell(S, A, f[i])], A.cols, FALSE, A.k)
      [] o.op = "fromd" -> Alloc(S, o.t, Cells(S, A), [i \in DOMAIN o.idx |-> A.cols[o.idx[i]]], A.one, A.k)
      [] o.op = "set"   -> Assign(S, A, o.what, o.vals)
      [] o.op = "rset"  -> Assign(S, [A EXCEPT !.rows = <<A.rows[o.i]>>], o.what, o.vals)
      [] o.op = "bump"  -> Assign(S, A, "n_eval", [i \in DOMAIN A.rows |-> Cell(S, A, i).n + 1])

\* what an observer sees of a container
Seen(S, c) == [rows |-> [i \in DOMAIN c.rows |->
                  [x |-> [j \in DOMAIN c.cols |-> Cell(S, c, i).x[c.cols[j]]],
                   y |-> Cell(S, c, i).y, n |-> Cell(S, c, i).n, ix |-> Cell(S, c, i).ix]],
               cols |-> c.cols, one |-> c.one]
SameRow(e, r) == e.x = r.x /\ e.y = r.y /\ e.n = r.n /\ (e.ix = "?" \/ e.ix = r.ix)
SameSeen(e, r) == /\ e.cols = r.cols /\ e.one = r.one /\ Len(e.rows) = Len(r.rows)
                  /\ \A i \in DOMAIN e.rows : SameRow(e.rows[i], r.rows[i])
=============================================================================
