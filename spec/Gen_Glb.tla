------------------------------- MODULE Gen_Glb -------------------------------
(* Scenarios for C04: every residue of the JSON length, every combination of declared and
   actual length of the first buffer, every kind of first buffer.                        *)
EXTENDS Glb, Json
CONSTANTS Names, BLens
Slack == {-100, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5}
VARIABLE sc
Init == sc \in {[kind |-> k, name |-> n, blen |-> b, dlen |-> Max(0, b + d), nbuf |-> m] :
                  k \in {"none"}, n \in Names, b \in BLens, d \in Slack, m \in {1}}
        \cup {[kind |-> k, name |-> n, blen |-> b, dlen |-> b, nbuf |-> m] :
                  k \in {"none", "uri", "embedded", "url"}, n \in Names, b \in {1, 2, 4}, m \in {0, 1, 2, 3}}
Next == FALSE /\ sc' = sc
Emit == PrintT("@S " \o ToJson(sc))
=============================================================================
