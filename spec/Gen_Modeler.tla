----------------------------- MODULE Gen_Modeler -----------------------------
(* Histories for the real helpers: every sequence of abstract operations up to a length,
   from every kind of starting document.  The driver picks the concrete data.          *)
EXTENDS Base, Json

CONSTANTS Ops, Depth, Starts

VARIABLE sc
Init == sc \in {[start |-> s, ops |-> o] : s \in Starts, o \in [1..Depth -> Ops]}
Next == FALSE /\ sc' = sc
Emit == PrintT("@S " \o ToJson(sc))
=============================================================================
