------------------------------ MODULE Gen_Typed ------------------------------
(* Every typed reader on accessors of every type, laid out in several ways. *)
EXTENDS Typed

CONSTANTS Ns
VARIABLE sc
Init == sc \in {[fn |-> f, c |-> c, t |-> t, n |-> n, norm |-> b, over |-> o, ic |-> i] :
                  f \in Functions, c \in CTypes, t \in TTypes, n \in Ns, b \in BOOLEAN, o \in {-1, 4}, i \in {"none", "ubyte"}}
Next == FALSE /\ sc' = sc
Emit == PrintT("@S " \o ToJson(sc))
=============================================================================
