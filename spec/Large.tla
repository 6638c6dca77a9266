-------------------------------- MODULE Large --------------------------------
(* Reading accessors too large for a trace: the memory is given by a formula, and only some
   of the elements read are recorded.

   e.m:   [k0, k1, k2, k3], the coefficients of the formula
   e.a:   the accessor, as in Access; e.v: the view of its elements, e.vv: that of the
          sparse values, each [off, len, stride]; sparse index j is e.start + j * e.step
   e.at:  the elements recorded, from 0; e.flat: their bytes                              *)
EXTENDS Typed

Byte(m, k) ==
   LET b == (m.k0 + (k * m.k1) + ((k \div 256) * m.k2) + ((k \div 65536) * m.k3)) % 256
   IN IF b % 128 = 127 THEN b - 64 ELSE b
ByteOf(e, v, off, i, x) ==      \* byte x (from 0) of the components of element i
   LET z == CSize(e.a.c) IN
   Byte(e.m, v.off + off + (i * EffStride(e.a.c, e.a.t, v.stride)) + Pos(e.a.c, e.a.t, x \div z) + (x % z))
Replaced(e, i) == /\ e.a.sparse /\ i >= e.start /\ (i - e.start) % e.step = 0
                  /\ (i - e.start) \div e.step < e.a.sn
Fixed(s) == SubSeq(s, 1, Len(s))     \* computed once
LargeValue(e) ==
   LET per == ValueSize(e.a) IN
   Fixed([y \in 1..(Len(e.at) * per) |->
      LET i == e.at[((y - 1) \div per) + 1]
          x == (y - 1) % per
      IN IF Replaced(e, i) THEN ByteOf(e, e.vv, e.a.voff, (i - e.start) \div e.step, x)
         ELSE IF e.a.hasView THEN ByteOf(e, e.v, e.a.off, i, x)
         ELSE 0])
=============================================================================
