---------------------------- MODULE Gen_Registry ----------------------------
(* Schedules for the real registry: registrations between the steps of two decodings, which
   stop in every handler they run.                                                       *)
EXTENDS Base, Json

CONSTANTS Depth, Docs

VARIABLES sched, open      \* the schedule; steps each decoding has taken
Init == sched = <<>> /\ open = [d \in 1..2 |-> 0]
Reg == \E n \in 1..2, k \in {"reg", "refuse"} : sched' = Append(sched, [k |-> k, n |-> n, doc |-> "none"]) /\ open' = open
Start == \E d \in 1..2 : /\ open[d] = 0 /\ (d = 2 => open[1] > 0)
                         /\ \E x \in Docs : sched' = Append(sched, [k |-> "start", n |-> d, doc |-> x]) /\ open' = [open EXCEPT ![d] = 1]
Step == \E d \in 1..2 : /\ open[d] \in 1..4 /\ sched' = Append(sched, [k |-> "step", n |-> d, doc |-> "none"]) /\ open' = [open EXCEPT ![d] = @ + 1]
Next == Len(sched) < Depth /\ (Reg \/ Start \/ Step)
Emit == Len(sched) = Depth /\ open[1] > 0 => PrintT("@S " \o ToJson([sched |-> sched]))
=============================================================================
