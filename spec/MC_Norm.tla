------------------------------- MODULE MC_Norm -------------------------------
(* Design: the demands on the conversions do not contradict each other.  Every float that
   may stand for v/d has v as its only nearest integer, and different integers get
   different floats in their order; the same for the sRGB curve up to one step.        *)
EXTENDS Norm

CONSTANTS Kinds, Step

VARIABLES kind, v, k
vars == <<kind, v, k>>

(* The float nearest below v/d, computed digit by digit, and its neighbours. *)
RECURSIVE ShiftFor(_, _, _)
ShiftFor(n, d, s) == IF Quot(n, d, s) >= 8388608 THEN s ELSE ShiftFor(n, d, s + 1)
KeyOf(n, d) == LET s == ShiftFor(n, d, 23) q == Quot(n, d, s) IN (150 - s) * 8388608 + q - 8388608
Near(n, d) == {KeyOf(n, d) + x : x \in {-1, 0, 1, 2}}
Chunk == 512
Init == kind \in Kinds /\ v \in {x \in 0..Top(kind) : x % Chunk = 0} /\ k = -1
StepOf(d) == IF d < 300 THEN 1 ELSE Step
Next == /\ k = -1 /\ kind' = kind
        /\ v' \in {x \in v..Min(v + Chunk - 1, Top(kind)) : x % StepOf(Top(kind)) = 0 \/ x = Top(kind)}
        /\ k' \in IF v' = 0 THEN {0} ELSE IF v' = Top(kind) THEN {OneKey} ELSE Near(v', Top(kind))
Spec == Init /\ [][Next]_vars

Inv == k >= 0 =>
       /\ IsQuotient(k, v, Top(kind)) => Nearest(k, Top(kind)) = {v}
       /\ IsQuotient(KeyOf(Max(v, 1), Top(kind)), Max(v, 1), Top(kind))
       /\ IsQuotient(k, v, Top(kind)) /\ v < Top(kind) => \A x \in Near(v + 1, Top(kind)) : k < x
       /\ v \in Within(k, Top(kind))
       /\ ~Signed(kind) => LET d == Top(kind) c == CurveAt(v, d) IN
             /\ EncodedFloor(c, d) = v
             /\ (v > 0 => EncodedFloor(c - 1, d) = v - 1)
             /\ v \in EncodedWithin(c, d)
=============================================================================
