------------------------------ MODULE TraceRun ------------------------------
(* Reading the recorded trace; shared by the trace specifications.  A trace specification
   keeps its state in st, judges event l with the operators of the design module, prints
   the reasons when the specification does not explain the event, and goes on with the
   state that was observed, so that the rest of the trace is judged too.               *)
EXTENDS Base, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(l, reasons) == IF reasons = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([l |-> l, r |-> reasons]))
Done(l) == IF l # Len(Trace) THEN TRUE ELSE PrintT("@@DONE " \o ToString(l))
=============================================================================
