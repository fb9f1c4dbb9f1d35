------------------------------- MODULE AskTell -------------------------------
(***************************************************************************)
(* Design model of the ask / evaluate / tell life cycle: requests, reports *)
(* of own, permuted, partial and foreign points with failed evaluations,   *)
(* warm data, stop test, run loop with failing objectives, checkpoints.    *)
(***************************************************************************)
EXTENDS ATCore

CONSTANTS
    Points,      \* abstract search space
    Fixable,     \* fixing masks the requests may use (0: nothing fixed)
    Vals,        \* finite codes and NaN used in reports (vectors of length NObj)
    NObj, Mns,   \* number of objectives and directions
    DoE, NPt,    \* initial design size, batch size
    Budget, Target,
    Noisy,       \* repeated suggestions allowed
    Warm,        \* warm data (sequence of observations, possibly empty)
    MaxRep       \* bound: number of reports

VARIABLES
    hist, evals, iters, histf, fitted, fitset,   \* the optimizer
    csv,                                         \* the data file
    asked,                                       \* points of the last request
    stop,                                        \* result of the last stop test
    disk,                                        \* last checkpoint (<<>> or <<state>>)
    told,                                        \* ghost: everything ever reported
    nrep                                         \* ghost: reports that count as iterations
vars == <<hist, evals, iters, histf, fitted, fitset, csv, asked, stop, disk, told, nrep>>
ghosts == <<told, nrep>>

Opt == <<hist, evals, iters, histf, fitted, fitset, csv>>

---------------------------------------------------------------------------
Entry(h) == IF NObj = 1 THEN <<<<BestVal(h, Mns[1])>>>> ELSE SetToSeq(FrontVals(h, Mns))

Init ==
    /\ hist = SelectSeq(Warm, LAMBDA o : AllFin(o.y))
    /\ evals = 0 /\ iters = 0 /\ histf = <<>>
    /\ fitted = (hist # <<>> /\ ~Flat(hist, NObj))
    /\ fitset = IF fitted THEN hist ELSE <<>>
    /\ csv = hist
    /\ asked = <<>> /\ stop = FALSE /\ disk = <<>>
    /\ told = Warm /\ nrep = 0

Seen == {hist[i].p : i \in DOMAIN hist}

(* A request: at most n new points (a short answer only when points run out);
   nothing else changes. *)
Ask(n) ==
    /\ LET m == IF n = 0 THEN (IF fitted THEN NPt ELSE DoE) ELSE n
           free == IF Noisy THEN Points ELSE Points \ Seen
       IN \E S \in SUBSET free :
            /\ S # {} /\ Cardinality(S) <= m
            /\ asked' = SetToSeq(S)
    /\ UNCHANGED <<Opt, stop, disk, ghosts>>

(* Exactly the effect of a report of the points `pts` with vectors `ys` *)
Report(pts, ys) ==
    LET h == TellHist(hist, pts, ys)
    IN /\ hist' = h
       /\ evals' = TellEvals(evals, Len(pts), NObj, FALSE)
       /\ csv' = csv \o Kept(pts, ys)
       /\ told' = told \o Obs(pts, ys)
       /\ IF h = <<>>
          THEN /\ iters' = iters + 1 /\ nrep' = nrep + 1
               /\ UNCHANGED <<histf, fitted, fitset>>
          ELSE IF Flat(h, NObj)       \* explicit error, model not updated
          THEN UNCHANGED <<iters, nrep, histf, fitted, fitset>>
          ELSE /\ iters' = iters + 1 /\ nrep' = nrep + 1
               /\ histf' = Append(histf, Entry(h))
               /\ fitted' = TRUE
               /\ fitset' = h

Batches(pts) == [1..Len(pts) -> Vals]

TellAsked ==
    /\ asked # <<>> /\ Len(told) < MaxRep
    /\ \E k \in 1..Len(asked) : \E ys \in Batches(SubSeq(asked, 1, k)) :
         Report(SubSeq(asked, 1, k), ys)
    /\ asked' = <<>>
    /\ UNCHANGED <<stop, disk>>

TellForeign ==
    /\ Len(told) < MaxRep
    /\ \E p \in Points : \E y \in Vals : Report(<<p>>, <<y>>)
    /\ UNCHANGED <<asked, stop, disk>>

CheckStop ==
    /\ stop' = (stop \/ Stopped(hist, evals, Mns, NObj, Budget, Target))
    /\ UNCHANGED <<Opt, asked, disk, ghosts>>

(* One step of a run: evaluate a fresh request and report it, or the
   objective raises and nothing at all is recorded. *)
Step ==
    /\ ~stop /\ ~Stopped(hist, evals, Mns, NObj, Budget, Target)
    /\ Len(told) < MaxRep
    /\ \/ \E S \in SUBSET (IF Noisy THEN Points ELSE Points \ Seen) :
            /\ S # {} /\ Cardinality(S) <= (IF fitted THEN NPt ELSE DoE)
            /\ LET X == SetToSeq(S) IN \E ys \in Batches(X) : Report(X, ys)
       \/ UNCHANGED <<Opt, ghosts>>      \* the objective raised
    /\ UNCHANGED <<asked, stop, disk>>

Save == /\ disk' = <<[h |-> hist, e |-> evals, i |-> iters, f |-> histf, m |-> fitted, s |-> fitset,
                      t |-> told, n |-> nrep, st |-> stop]>>
        /\ UNCHANGED <<Opt, asked, stop, ghosts>>

(* Crash and restart from the checkpoint; the data file is append-only. *)
Load == /\ disk # <<>>
        /\ hist' = disk[1].h /\ evals' = disk[1].e /\ iters' = disk[1].i /\ histf' = disk[1].f
        /\ fitted' = disk[1].m /\ fitset' = disk[1].s /\ stop' = disk[1].st
        /\ told' = disk[1].t /\ nrep' = disk[1].n
        /\ asked' = <<>>
        /\ csv' = disk[1].h   \* modelled for a restart with the file of that moment
        /\ UNCHANGED disk

Next == \/ \E n \in {0, 1, 2} : Ask(n)
        \/ TellAsked \/ TellForeign \/ CheckStop \/ Step \/ Save \/ Load

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* P05: the history is the sequence of finite reports, in order *)
HistExact == hist = SelectSeq(told, LAMBDA o : AllFin(o.y))
CountsExact == evals = NObj * (Len(told) - Len(Warm)) /\ iters = nrep
(* P21 *)
CsvExact == csv = hist
(* P06 / P09 *)
RecordOk == /\ \A i \in DOMAIN histf : histf[i] # <<>>
            /\ NObj = 1 => \A i \in 1..(Len(histf) - 1) : ~Better(histf[i][1][1], histf[i + 1][1][1], Mns[1])
            /\ (hist # <<>> /\ NObj = 1) =>
                 \A i \in DOMAIN hist : ~Better(hist[i].y[1], BestVal(hist, Mns[1]), Mns[1])
FrontOk == hist # <<>> /\ NObj > 1 =>
    /\ FrontVals(hist, Mns) # {}
    /\ \A u \in FrontVals(hist, Mns) : \A v \in FrontVals(hist, Mns) : ~Dominates(u, v, Mns)
    /\ \A i \in DOMAIN hist : \/ hist[i].y \in FrontVals(hist, Mns)
                              \/ \E v \in FrontVals(hist, Mns) : Dominates(v, hist[i].y, Mns)
(* P23 *)
FitOk == fitted => /\ fitset # <<>> /\ IsPrefix(fitset, hist)
                   /\ (~Flat(hist, NObj) => fitset = hist)
(* P04: with own points only, no point is observed twice in noiseless mode is
   checked as an action property of requests *)
NoRepeat == [][(asked' # asked /\ asked' # <<>> /\ ~Noisy) =>
                 /\ Range1(asked') \cap Seen = {}
                 /\ Cardinality(Range1(asked')) = Len(asked')]_vars
(* P07: the stop condition, once true, stays true unless an older checkpoint
   is restored; a run never starts a batch once it holds *)
StopStays == [][(Stopped(hist, evals, Mns, NObj, Budget, Target) /\ ~ENABLED Load) =>
                   Stopped(hist', evals', Mns, NObj, Budget, Target)]_vars
StopSound == stop => Stopped(hist, evals, Mns, NObj, Budget, Target)
(* P08 *)
SaveHarmless == [][disk' # disk => UNCHANGED <<Opt, asked, stop>>]_vars
=============================================================================
