----------------------------- MODULE MC_Handles ------------------------------
(* Design: decoding and encoding with external resources, one after the other, any of
   which goes wrong in any way.  The call stops at the first error, but not before the
   resource at hand is closed; an error of closing counts when writing.               *)
EXTENDS Handles

CONSTANTS MaxRes

VARIABLES what, plan, i, at, hs, res, err, uses
vars == <<what, plan, i, at, hs, res, err, uses>>

Faults == IF what = "encode" THEN WriteFaults ELSE ReadFaults
Init == /\ what \in {"decode", "encode"}
        /\ plan \in UNION {[1..n -> IF what = "encode" THEN WriteFaults ELSE ReadFaults] : n \in 0..MaxRes}
        /\ i = 1 /\ at = "next" /\ hs = <<>> /\ res = "running" /\ err = FALSE /\ uses = <<>>

F == plan[i]
Next0 == /\ at = "next" /\ res = "running"
         /\ IF i > Len(plan) THEN res' = "ok" /\ UNCHANGED <<i, at, hs, err, uses>>
            ELSE IF F \in {"outside", "length"} THEN res' = "err" /\ UNCHANGED <<i, at, hs, err, uses>>
            ELSE IF F = "empty" THEN i' = i + 1 /\ UNCHANGED <<at, hs, res, err, uses>>
            ELSE IF F \in {"missing", "open", "create"} THEN res' = "err" /\ UNCHANGED <<i, at, hs, err, uses>>
            ELSE hs' = Opened(hs, i) /\ at' = "use" /\ err' = FALSE /\ UNCHANGED <<i, res, uses>>
Use == /\ at = "use" /\ uses' = Append(uses, i)
       /\ IF F \in {"read", "write", "short"} THEN err' = TRUE /\ at' = "close" ELSE at' \in {"use", "close"} /\ UNCHANGED err
       /\ Len(uses) < 4 /\ UNCHANGED <<i, hs, res>>
CloseIt == /\ at = "close" /\ hs' = Closed(hs, i)
           /\ LET bad == err \/ (F = "close" /\ what = "encode") IN
              IF bad THEN res' = "err" /\ UNCHANGED <<i, at>> ELSE i' = i + 1 /\ at' = "next" /\ UNCHANGED res
           /\ UNCHANGED <<err, uses>>
Next == (Next0 \/ Use \/ CloseIt) /\ UNCHANGED <<what, plan>>
Spec == Init /\ [][Next]_vars

Bad(f) == f \notin {"ok", "stat", "empty"} /\ ~(what = "decode" /\ f = "close")
Inv == /\ res # "running" => AllClosed(hs)
       /\ res = "ok" => \A k \in DOMAIN plan : ~Bad(plan[k])
       /\ res = "err" => \E k \in DOMAIN plan : Bad(plan[k])
       /\ \A k \in DOMAIN hs : plan[k] \notin {"outside", "length", "missing", "open", "create", "empty"}
OneAtATime == Cardinality({h \in DOMAIN hs : hs[h] = "open"}) <= 1
=============================================================================
