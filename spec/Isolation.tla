------------------------------ MODULE Isolation ------------------------------
(* Several documents that come from decoding, building and writing, next to one another.
   Every document has an origin: the key of what it was made of, which determines its
   meaning; a document whose memory its owner overwrote is wild and means anything.     *)
EXTENDS Base

None == "none"
Wild == "wild"
Tame(o) == o # None /\ o # Wild

(* Variants of one input have the same properties with other values. *)
Variants == {"a1", "a2"}
Inputs == Variants \cup {"b1"}

(* What is done to a document, and the origin it has then. *)
Allowed(do, o) ==
   CASE do = "again" -> o \in Variants
     [] do \in {"encode", "read", "write"} -> Tame(o)
     [] do = "scribble" -> o # None
     [] OTHER -> TRUE
NewOrigin(do, key, o) ==
   CASE do \in {"decode", "again", "build", "new"} -> key
     [] do = "write" -> o \o "+"
     [] do = "scribble" -> Wild
     [] OTHER -> o
(* Things whose result the origin determines have this key in the list of known results. *)
Makes(do) == do \in {"decode", "again", "build", "new", "write"}
=============================================================================
