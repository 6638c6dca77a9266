------------------------------- MODULE Handles -------------------------------
(* The life of the resources that one call opens: opened, used, closed once, before the
   call returns.  Statuses of handles are "open" and "closed".                        *)
EXTENDS Base

(* What may go wrong with a resource, and when. *)
ReadFaults == {"ok", "missing", "open", "stat", "read", "close", "outside", "length"}
WriteFaults == {"ok", "create", "write", "short", "close", "outside", "empty"}

UseAllowed(hs, h) == h \in DOMAIN hs /\ hs[h] = "open"
AllClosed(hs) == \A h \in DOMAIN hs : hs[h] = "closed"
Opened(hs, h) == [x \in DOMAIN hs \cup {h} |-> IF x = h THEN "open" ELSE hs[x]]
Closed(hs, h) == [hs EXCEPT ![h] = "closed"]
=============================================================================
