------------------------------- MODULE MC_B64 --------------------------------
(* Design: base64 and data URIs are inverses; corruptions of the text are noticed or give
   other bytes, never a part.                                                          *)
EXTENDS Resources
CONSTANTS MaxLen, Values
VARIABLES data, text
Init == data \in UNION {[1..n -> Values] : n \in 0..MaxLen} /\ text = DataURI(OctetPrefix, data)
(* one character of the payload is damaged *)
Damage == /\ text = DataURI(OctetPrefix, data)
          /\ \E p \in (Len(OctetPrefix) + 2)..Len(text), c \in {33, 61, 65, 66, 10} : text' = [text EXCEPT ![p] = c]
          /\ data' = data
Truncate == /\ text = DataURI(OctetPrefix, data)
            /\ \E n \in (Len(OctetPrefix) + 1)..(Len(text) - 1) : text' = SubSeq(text, 1, n)
            /\ data' = data
Next == Damage \/ Truncate
P == Payload(text, OctetPrefix)
Inverse == text = DataURI(OctetPrefix, data) => B64Valid(P) /\ B64Decode(P) = data /\ Canonical(P) /\ Embedded(text) /\ WellFormedData(text, OctetPrefix)
Lengths == B64Valid(P) => Len(B64Decode(P)) \in {(Len(P) \div 4) * 3 - x : x \in 0..2}
Bytes == B64Valid(P) => \A k \in DOMAIN B64Decode(P) : B64Decode(P)[k] \in 0..255
Inv == Inverse /\ Lengths /\ Bytes
=============================================================================
