------------------------------ MODULE Gen_Schema ------------------------------
(* Documents, in memory and as text, around every kind of object: every property with every
   class of value, all pairs of properties, all combinations of the defaulted ones.
   (Names of variables must differ from names of parameters: TLC is 100 times slower otherwise.) *)
EXTENDS SchemaGen, Json
CONSTANTS Wide
VARIABLES vt, vas, vgo
Init == vt \in Types /\ vas = <<>> /\ vgo = FALSE
Next == ~vgo /\ vgo' = TRUE /\ vas' \in Assignments(vt, Wide) /\ UNCHANGED vt
Emit == ~vgo \/ \A g \in {Mem(vt, vas)}, j \in {Text(vt, vas)} : PrintT("@S " \o ToJson([t |-> vt, g |-> WrapMem(vt, g), j |-> WrapText(vt, j)]))
=============================================================================
