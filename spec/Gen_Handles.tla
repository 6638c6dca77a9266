----------------------------- MODULE Gen_Handles -----------------------------
(* Calls and what goes wrong with each of their resources. *)
EXTENDS Handles, Json

CONSTANT MaxRes

VARIABLE sc
Plans(fs) == UNION {[1..n -> fs] : n \in 0..MaxRes}
Init == sc \in [what : {"decode"}, form : {"text", "binary", "binary+", "broken", "cut"}, plan : Plans(ReadFaults)]
               \cup [what : {"encode"}, form : {"text", "binary", "binary+", "broken", "full"}, plan : Plans(WriteFaults)]
               \cup [what : {"open"}, form : {"text", "binary", "binary+", "broken", "cut"}, plan : Plans({"ok", "missing", "directory", "outside", "length"})]
               \cup [what : {"save"}, form : {"text", "binary", "binary+", "broken", "full"}, plan : Plans({"ok", "missing", "directory", "outside", "full", "empty"})]
Next == FALSE /\ sc' = sc
Emit == PrintT("@S " \o ToJson(sc))
=============================================================================
