----------------------------- MODULE Gen_Effects -----------------------------
(* Histories for the real encoder: every sequence of encodings and edits up to a length,
   of every kind of document.  The driver picks the concrete document.               *)
EXTENDS Base, Json

CONSTANTS Steps, Depth, Kinds

VARIABLE sc
Init == sc \in {[kind |-> x, steps |-> o] : x \in Kinds, o \in [1..Depth -> Steps]}
Next == FALSE /\ sc' = sc
Emit == PrintT("@S " \o ToJson(sc))
=============================================================================
