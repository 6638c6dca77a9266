------------------------------- MODULE Gen_Ext -------------------------------
(* Extensions and extra data at every object that may carry them. *)
EXTENDS SchemaGen, Json
VARIABLES vt, vx
Init == vt \in ExtPoints /\ vx = <<>>
Next == vx = <<>> /\ vx' \in Additions /\ UNCHANGED vt
Emit == vx = <<>> \/ \A j \in {Add(Text(vt, <<>>), vx)} : PrintT("@S " \o ToJson([t |-> vt, j |-> WrapText(vt, j)]))
=============================================================================
