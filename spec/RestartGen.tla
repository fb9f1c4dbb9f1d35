------------------------------ MODULE RestartGen ------------------------------
(* The search as a state machine, and generator of scripted outcomes: a script
   holds N outcomes, the search decides how many of them it takes.           *)
EXTENDS Restart, Json, TLC
CONSTANTS MaxN, Ws, Bs, Fs, Ns, Feas, Emit
VARIABLES c, k, s, res
vars == <<c, k, s, res>>
Outcomes == [f : Fs, ok : Feas, n : Ns]
Open == "open"
Init == /\ \E n \in 1..MaxN : \E w \in Ws : \E b \in Bs : c = [n |-> n, w |-> w, b |-> b, runs |-> <<>>]
        /\ k = 0 /\ s = Begin(c.b) /\ res = Open
Script == /\ Len(c.runs) < c.n
          /\ \E r \in Outcomes : c' = [c EXCEPT !.runs = Append(@, r)]
          /\ UNCHANGED <<k, s, res>>
Run == /\ Len(c.runs) = c.n /\ res = Open /\ k < c.n /\ (k = 0 \/ ~Exhausted(s, c.w))
       /\ k' = k + 1
       /\ s' \in After(s, c.runs[k + 1])
       /\ UNCHANGED <<c, res>>
Finish == /\ k > 0 /\ res = Open /\ (k = c.n \/ Exhausted(s, c.w))
          /\ res' = "done" /\ UNCHANGED <<c, k, s>>
Out == /\ Emit /\ Len(c.runs) = c.n /\ k = 0 /\ res = Open
         /\ res' = "emitted" /\ UNCHANGED <<c, k, s>>
         /\ PrintT(<<"@CASE", ToJson(c)>>)
Spec == Init /\ [][Script \/ Out \/ (~Emit /\ (Run \/ Finish))]_vars

Taken == SubSeq(c.runs, 1, k)
\* the machine meets the requirements, whatever it does after infeasible outcomes
Meets == res = "done" => /\ Limit(Taken, c.n) /\ NoLate(Taken, c.b, c.w) /\ NoEarly(Taken, c.b, c.w, c.n)
                         /\ s.best = Best(Taken)
\* with patience one, the search ends at the first feasible restart that does not improve
Patience == (res = "done" /\ c.w = 1 /\ k > 1) =>
              \A i \in 2..(k - 1) : c.runs[i].ok => c.runs[i].f > Best(SubSeq(c.runs, 1, i - 1))
\* all feasible: at most one run is granted more than the budget allows
Budget == (k > 1 /\ \A i \in 1..k : c.runs[i].ok) => c.b - s.left - c.runs[k].n < c.b
=============================================================================
