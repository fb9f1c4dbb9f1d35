------------------------------ MODULE AskTellGen ------------------------------
(***************************************************************************)
(* Behaviours of the ask/tell life cycle at the level of the operations a  *)
(* user can perform.  Each operation is enabled exactly when the design    *)
(* model (AskTell) enables it; the values reported are carried so that the *)
(* generator knows the history.  Simulated with a fixed seed; every        *)
(* complete behaviour is printed as a JSON list of operations.             *)
(***************************************************************************)
EXTENDS ATCore, Json

CONSTANTS Kinds,      \* operations to use
          Ns,         \* sizes of requests (0: default)
          Fixes,      \* fixing masks
          Pats,       \* value patterns (sequences of codes, repeated over the batch)
          Modes,      \* how a batch is reported
          FModes,     \* kinds of foreign points
          Ks,         \* numbers of foreign points
          Raises,     \* evaluation at which the objective raises (0: never)
          Depth

VARIABLES log, asked, ckpt, any, done
vars == <<log, asked, ckpt, any, done>>

Init == log = <<>> /\ asked = FALSE /\ ckpt = FALSE /\ any = FALSE /\ done = FALSE

More == Len(log) < Depth /\ ~done
Do(op) == log' = Append(log, op) /\ UNCHANGED done
Has(k) == k \in Kinds
Fresh(k) == IF log = <<>> THEN TRUE ELSE log[Len(log)].op # k    \* idempotent operations are not repeated at once

HasFin(ys) == \E i \in DOMAIN ys : IsFin(ys[i])

Ask == /\ More /\ Has("ask")
       /\ \E n \in Ns : \E f \in Fixes : Do([op |-> "ask", n |-> n, fix |-> f])
       /\ asked' = TRUE /\ UNCHANGED <<ckpt, any>>
Tell == /\ More /\ Has("tell") /\ asked
        /\ \E m \in Modes : \E ys \in Pats : Do([op |-> "tell", mode |-> m, ys |-> ys])
        /\ asked' = FALSE /\ any' = TRUE /\ UNCHANGED ckpt
TellF == /\ More /\ Has("tellf")
         /\ \E k \in Ks : \E m \in FModes : \E ys \in Pats :
              Do([op |-> "tellf", k |-> k, mode |-> m, ys |-> ys])
         /\ any' = TRUE /\ UNCHANGED <<asked, ckpt>>
Rec == More /\ Has("rec") /\ Fresh("rec") /\ Do([op |-> "rec"]) /\ UNCHANGED <<asked, ckpt, any>>
Stop == More /\ Has("stop") /\ Fresh("stop") /\ Do([op |-> "stop"]) /\ UNCHANGED <<asked, ckpt, any>>
Step == /\ More /\ Has("step")
        /\ \E r \in Raises : \E ys \in Pats : \E m \in {"bycall", "bypoint"} :
             Do([op |-> "step", ys |-> ys, ymode |-> m, raise |-> r])
        /\ any' = TRUE /\ UNCHANGED <<asked, ckpt>>
Run == /\ More /\ Has("run")
       /\ \E ys \in {p \in Pats : HasFin(p)} : \E m \in {"bycall", "bypoint"} : \E r \in Raises :
             Do([op |-> "run", ys |-> ys, ymode |-> m, raise |-> r])
       /\ any' = TRUE /\ UNCHANGED <<asked, ckpt>>
Save == More /\ Has("save") /\ Fresh("save") /\ Do([op |-> "save"]) /\ ckpt' = TRUE /\ UNCHANGED <<asked, any>>
Load == More /\ Has("load") /\ Fresh("load") /\ Do([op |-> "load"]) /\ UNCHANGED <<asked, ckpt, any>>
Cmp == /\ More /\ Has("slcmp")
       /\ \E n \in Ns : \E ys \in Pats : \E g \in BOOLEAN :
            Do([op |-> "slcmp", n |-> n, ys |-> ys, go |-> g])
       /\ UNCHANGED <<asked, ckpt, any>>
SaveFail == /\ More /\ Has("savefail") /\ Fresh("savefail")
            /\ \E h \in {"pickle", "path", "full"} : Do([op |-> "savefail", how |-> h])
            /\ UNCHANGED <<asked, ckpt, any>>

Emit == /\ ~done /\ Len(log) = Depth
        /\ PrintT(<<"@CASE", ToJson(log)>>)
        /\ done' = TRUE /\ UNCHANGED <<log, asked, ckpt, any>>

Next == Ask \/ Tell \/ TellF \/ Rec \/ Stop \/ Step \/ Run \/ Save \/ Load \/ Cmp \/ SaveFail \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
