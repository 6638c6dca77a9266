------------------------------- MODULE Layout -------------------------------
(* The memory layout of typed data: component types, element types, and the byte
   position of every component of every element (glTF 2.0, 3.6.2.4).            *)
EXTENDS Base

CTypes == {"byte", "ubyte", "short", "ushort", "uint", "float"}
TTypes == {"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"}

CSize(c) == CASE c \in {"byte", "ubyte"} -> 1
              [] c \in {"short", "ushort"} -> 2
              [] OTHER -> 4
Rows(t) == CASE t = "SCALAR" -> 1
             [] t \in {"VEC2", "MAT2"} -> 2
             [] t \in {"VEC3", "MAT3"} -> 3
             [] OTHER -> 4
Cols(t) == CASE t = "MAT2" -> 2 [] t = "MAT3" -> 3 [] t = "MAT4" -> 4 [] OTHER -> 1
Comps(t) == Rows(t) * Cols(t)

(* Distance between the columns of a matrix: columns start on four-byte boundaries.
   Vectors of small integers are padded likewise; scalars are not.                *)
ColStride(c, t) == AlignUp(Rows(t) * CSize(c), 4)
ElemSize(c, t) == IF t = "SCALAR" THEN CSize(c) ELSE Cols(t) * ColStride(c, t)
(* Up to the last byte of the last component, without the trailing padding. *)
BareSize(c, t) == (Cols(t) - 1) * ColStride(c, t) + Rows(t) * CSize(c)

(* The Go value of a matrix is indexed [row][column]; k counts its components in that
   order.  In memory the columns follow each other.                                *)
RowOf(t, k) == k \div Cols(t)
ColOf(t, k) == k % Cols(t)
Pos(c, t, k) == ColOf(t, k) * ColStride(c, t) + RowOf(t, k) * CSize(c)

EffStride(c, t, stride) == IF stride = 0 THEN ElemSize(c, t) ELSE stride

(* Bytes n elements need at a stride, with the trailing padding of the last or without it.
   Very large strides cannot fit any byte slice that exists.                            *)
HUGE == 100000000
Extent(c, t, n, stride, last) == IF n = 0 THEN 0 ELSE (n - 1) * EffStride(c, t, stride) + last
Tall(c, t, n, stride) == n > 1 /\ EffStride(c, t, stride) > HUGE \div n
LongEnough(c, t, n, stride, len) == 
   n = 0 \/ (~Tall(c, t, n, stride) /\ Extent(c, t, n, stride, ElemSize(c, t)) <= len)
TooShort(c, t, n, stride, len) ==
   n > 0 /\ (Tall(c, t, n, stride) \/ Extent(c, t, n, stride, BareSize(c, t)) > len)

(* The strides the format allows; the ones at which a writer keeps the components of an
   element clear of those of the next; and the ones at which a reader can read.          *)
LegalStride(c, t, stride) == stride = 0 \/ stride >= ElemSize(c, t)
ClearStride(c, t, stride) == stride = 0 \/ stride >= BareSize(c, t)
ReadStride(stride) == stride >= 0

(* The byte positions (from 0) of component k of element i, and of all of the element. *)
CompBytes(c, t, stride, i, k) ==
   LET p == i * EffStride(c, t, stride) + Pos(c, t, k) IN p..(p + CSize(c) - 1)
ElemBytes(c, t, stride, i) ==
   LET p == i * EffStride(c, t, stride) IN p..(p + ElemSize(c, t) - 1)

(* Go's name of the slice type. *)
GoComp(c) == CASE c = "byte" -> "int8" [] c = "ubyte" -> "uint8" [] c = "short" -> "int16"
               [] c = "ushort" -> "uint16" [] c = "uint" -> "uint32" [] OTHER -> "float32"
GoType(c, t) ==
   CASE t = "SCALAR" -> "[]" \o GoComp(c)
     [] t = "VEC2" -> "[][2]" \o GoComp(c)
     [] t = "VEC3" -> "[][3]" \o GoComp(c)
     [] t = "VEC4" -> "[][4]" \o GoComp(c)
     [] t = "MAT2" -> "[][2][2]" \o GoComp(c)
     [] t = "MAT3" -> "[][3][3]" \o GoComp(c)
     [] OTHER -> "[][4][4]" \o GoComp(c)
=============================================================================
