----------------------------- MODULE MC_Layout ------------------------------
(* Design: a slice of symbolic values is written component by component, then read back
   component by component, for every type, stride and length within the bounds.
   Also the source of the scenarios for the real code (see Gen_Layout).               *)
EXTENDS Layout

CONSTANTS MaxN, Extra       \* elements; bytes by which strides exceed the element size

VARIABLES c, t, n, stride, phase, i, k, mem, got
vars == <<c, t, n, stride, phase, i, k, mem, got>>

None == <<-1, -1, -1>>
Size == Extent(c, t, n, stride, ElemSize(c, t))

Init == /\ c \in CTypes /\ t \in TTypes /\ n \in 0..MaxN
        /\ stride \in {0} \cup {ElemSize(c, t) + e : e \in Extra}
        /\ phase = "write" /\ i = 0 /\ k = 0
        /\ mem = [p \in 0..(Size - 1) |-> None]
        /\ got = <<>>

Advance == IF k + 1 < Comps(t) THEN k' = k + 1 /\ i' = i ELSE k' = 0 /\ i' = i + 1

WriteComponent ==
   /\ phase = "write" /\ i < n
   /\ mem' = [p \in DOMAIN mem |->
                IF p \in CompBytes(c, t, stride, i, k)
                THEN <<i, k, p - (i * EffStride(c, t, stride) + Pos(c, t, k))>> ELSE mem[p]]
   /\ Advance /\ UNCHANGED <<c, t, n, stride, phase, got>>

TurnAround == /\ phase = "write" /\ i = n /\ phase' = "read" /\ i' = 0 /\ k' = 0
              /\ UNCHANGED <<c, t, n, stride, mem, got>>

ReadComponent ==
   /\ phase = "read" /\ i < n
   /\ got' = Append(got, [b \in 0..(CSize(c) - 1) |-> mem[i * EffStride(c, t, stride) + Pos(c, t, k) + b]])
   /\ Advance /\ UNCHANGED <<c, t, n, stride, phase, mem>>

Next == WriteComponent \/ TurnAround \/ ReadComponent
Spec == Init /\ [][Next]_vars

(* No component's bytes leave the element, the element the slice. *)
InBounds == \A x \in 0..(n - 1), y \in 0..(Comps(t) - 1) :
               /\ CompBytes(c, t, stride, x, y) \subseteq DOMAIN mem
               /\ CompBytes(c, t, stride, x, y) \subseteq ElemBytes(c, t, stride, x)
               /\ Pos(c, t, y) % CSize(c) = 0
(* What was written stays: components do not overlap. *)
Written(x, y) == x < i \/ (x = i /\ y < k)
NoOverlap == phase = "write" =>
   \A x \in 0..(n - 1), y \in 0..(Comps(t) - 1) :
      Written(x, y) => \A p \in CompBytes(c, t, stride, x, y) : mem[p][1] = x /\ mem[p][2] = y
(* Only component bytes are touched. *)
Untouched == \A p \in DOMAIN mem :
   mem[p] # None => \E x \in 0..(n - 1), y \in 0..(Comps(t) - 1) : p \in CompBytes(c, t, stride, x, y)
RoundTrip == phase = "read" =>
   \A j \in 1..Len(got) : \A b \in 0..(CSize(c) - 1) :
      got[j][b] = <<(j - 1) \div Comps(t), (j - 1) % Comps(t), b>>
ColumnsAligned == Cols(t) > 1 => \A y \in 0..(Comps(t) - 1) : RowOf(t, y) = 0 => Pos(c, t, y) % 4 = 0
PaddedElements == t # "SCALAR" => ElemSize(c, t) % 4 = 0
SizesAgree == BareSize(c, t) <= ElemSize(c, t) /\ BareSize(c, t) > ElemSize(c, t) - 4
Inv == InBounds /\ NoOverlap /\ Untouched /\ RoundTrip /\ ColumnsAligned /\ PaddedElements /\ SizesAgree
=============================================================================
