------------------------------ MODULE T_Handles ------------------------------
(* Judges what recorded calls did to resources, operation by operation. *)
EXTENDS Handles, TraceRun

VARIABLES pos, hs, active
Init == pos = 1 /\ hs = <<>> /\ active = FALSE

Judge(e) ==
   CASE e.op = "call" -> {}
     [] e.op = "open" -> Need(active, "C28 a resource is opened outside of the call")
     [] e.op = "use" -> Need(active, "C28 a resource is used after the call") \cup Need(UseAllowed(hs, e.h), "C28 a resource is used after it was closed")
     [] e.op = "close" -> Need(active, "C28 a resource is closed after the call") \cup Need(UseAllowed(hs, e.h), "C28 a resource is closed again")
     [] e.op = "own" -> Need(e.how # "close", "C28 the stream of the caller is closed")
     [] e.op = "return" -> Need(e.out # "panic", "C28 the call panics")
          \cup Need(AllClosed(hs), "C28 a resource is left open by " \o e.what)
          \cup Need(e.left = <<>>, "C28 a file is left open by " \o e.what)
Step(e) ==
   CASE e.op = "call" -> <<>>
     [] e.op = "open" -> Opened(hs, e.h)
     [] e.op = "close" /\ e.h \in DOMAIN hs -> Closed(hs, e.h)
     [] OTHER -> hs

Next == /\ pos <= Len(Trace)
        /\ Report(pos, Judge(Trace[pos]))
        /\ Done(pos)
        /\ hs' = Step(Trace[pos])
        /\ active' = IF Trace[pos].op = "call" THEN TRUE ELSE IF Trace[pos].op = "return" THEN FALSE ELSE active
        /\ pos' = pos + 1
=============================================================================
