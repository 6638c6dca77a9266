------------------------------ MODULE MC_Zones ------------------------------
(* The criterion by which histories are judged is the definition, on all small histories. *)
EXTENDS Registry

CONSTANTS Writes, Reads

Ops == 1..(Writes + Reads)
Times == 1..(2 * (Writes + Reads))

VARIABLES begins, ends, vals, taken     \* a history, operation by operation
vars == <<begins, ends, vals, taken>>
Init == begins = <<>> /\ ends = <<>> /\ vals = <<>> /\ taken = {}
Next == /\ Len(begins) < Writes + Reads
        /\ \E b, x \in Times \ taken :
             /\ b < x /\ taken' = taken \cup {b, x}
             /\ begins' = Append(begins, b) /\ ends' = Append(ends, x)
             (* writes have their number as version; symmetric ones begin in order *)
             /\ IF Len(begins) < Writes THEN vals' = Append(vals, Len(begins) + 1) /\ (begins = <<>> \/ begins[Len(begins)] < b)
                ELSE \E v \in 0..Writes : vals' = Append(vals, v)
Whole == Len(begins) = Writes + Reads
WriteSet == {InitialWrite} \cup {[v |-> vals[i], b |-> begins[i], e |-> ends[i]] : i \in 1..Writes}
ReadSet == {[v |-> vals[i], b |-> begins[i], e |-> ends[i]] : i \in (Writes + 1)..(Writes + Reads)}
SameAsDefinition == Whole => (Linearizable(WriteSet, ReadSet) = LinearizableByDefinition(WriteSet, ReadSet))
(* For one read the plain criterion is exact. *)
AloneCurrent == Whole => \A r \in ReadSet : Current(WriteSet, r) = Linearizable(WriteSet, {r})
=============================================================================
