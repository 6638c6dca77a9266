-------------------------------- MODULE Base --------------------------------
(* Operators shared by all modules. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
AlignUp(n, a) == ((n + a - 1) \div a) * a
Range(s) == {s[i] : i \in DOMAIN s}
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Zeros(n) == [i \in 1..n |-> 0]
Has(r, f) == f \in DOMAIN r
(* a set with the reason when the condition does not hold *)
Need(cond, reason) == IF cond THEN {} ELSE {reason}
=============================================================================
