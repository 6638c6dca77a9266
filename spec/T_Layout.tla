------------------------------ MODULE T_Layout ------------------------------
(* Judges recorded calls of package binary against Layout. *)
EXTENDS Layout, TraceRun

VARIABLE l
Init == l = 1

(* Colours are four components of one or two bytes. *)
TT(e) == IF e.t = "COLOR" THEN "VEC4" ELSE e.t

(* Bytes of component k of element i as the event's byte list has them. *)
At(bytes, c, t, stride, i, k) ==
   LET p == i * EffStride(c, t, stride) + Pos(c, t, k) IN SubSeq(bytes, p + 1, p + CSize(c))
Value(vals, t, i, k) == vals[i * Comps(t) + k + 1]

Transferred(bytes, vals, c, t, n, stride) ==
   \A i \in 0..(n - 1), k \in 0..(Comps(t) - 1) :
      At(bytes, c, t, stride, i, k) = Value(vals, t, i, k)
(* Bytes outside the elements kept their values. *)
InElement(c, t, n, stride, p) ==
   LET s == EffStride(c, t, stride) i == Min(p \div s, n - 1) IN n > 0 /\ p < i * s + ElemSize(c, t)
Kept(b, a, c, t, n, stride) ==
   Len(a) = Len(b) /\ \A p \in 0..(Len(b) - 1) : a[p + 1] = b[p + 1] \/ InElement(c, t, n, stride, p)

(* Bytes that are no part of any component kept theirs. *)
Component(c, t, n, stride, p) ==
   LET s == EffStride(c, t, stride) IN
   \E i \in Max(0, (p - ElemSize(c, t)) \div s)..Min(p \div s, n - 1) : \E k \in 0..(Comps(t) - 1) :
      LET q == (i * s) + Pos(c, t, k) IN q <= p /\ p < q + CSize(c)
Spared(b, a, c, t, n, stride) ==
   Len(a) = Len(b) /\ \A p \in 0..(Len(b) - 1) : a[p + 1] = b[p + 1] \/ Component(c, t, n, stride, p)

JudgeWrite(e) ==
   LET t == TT(e) legal == ClearStride(e.c, t, e.stride) okay == e.out = "ok" IN
   Need(e.out \in {"ok", "short"}, "C12 write neither succeeds nor reports a short buffer")
   \cup Need(~(legal /\ LongEnough(e.c, t, e.n, e.stride, e.len)) \/ okay, "C12 write fails although the bytes are enough")
   \cup Need(~(legal /\ LongEnough(e.c, t, e.n, e.stride, e.len)) \/ okay, "C11 write fails although the bytes are enough")
   \cup Need(~(e.stride >= 0 /\ TooShort(e.c, t, e.n, e.stride, e.len)) \/ e.out = "short", "C12 write into too few bytes does not report a short buffer")
   \cup Need(okay \/ e.after = e.before, "C12 failed write changes the destination")
   \cup Need(e.outside = <<>>, "C12 write touches memory beyond the byte slice")
   \cup Need(e.src = "same", "C12 write changes the source slice")
   \cup (IF okay /\ legal /\ ~TooShort(e.c, t, e.n, e.stride, e.len) THEN
           Need(Transferred(e.after, e.vals, e.c, t, e.n, e.stride), "C11 write puts a component at a wrong place or value")
           \cup Need(Kept(e.before, e.after, e.c, t, e.n, e.stride), "C11 write touches bytes outside the elements")
           \cup Need(Spared(e.before, e.after, e.c, t, e.n, e.stride), "C12 write touches bytes outside the components")
         ELSE {})

JudgeRead(e) ==
   LET t == TT(e) legal == ReadStride(e.stride) okay == e.out = "ok" IN
   Need(e.out \in {"ok", "short"}, "C12 read neither succeeds nor reports a short buffer")
   \cup Need(~(legal /\ LongEnough(e.c, t, e.n, e.stride, e.len)) \/ okay, "C12 read fails although the bytes are enough")
   \cup Need(~(legal /\ LongEnough(e.c, t, e.n, e.stride, e.len)) \/ okay, "C11 read fails although the bytes are enough")
   \cup Need(~(e.stride >= 0 /\ TooShort(e.c, t, e.n, e.stride, e.len)) \/ e.out = "short", "C12 read from too few bytes does not report a short buffer")
   \cup Need(okay \/ e.after = e.before, "C12 failed read changes the destination")
   \cup Need(e.outside = <<>>, "C12 read changes the bytes it reads")
   \cup Need(e.beyond = "same", "C12 read changes elements beyond the destination slice")
   \cup (IF okay /\ legal /\ ~TooShort(e.c, t, e.n, e.stride, e.len) THEN
           Need(Len(e.after) = e.n * Comps(t) /\ Transferred(e.bytes, e.after, e.c, t, e.n, e.stride), "C11 read takes a component from a wrong place")
         ELSE {})

JudgePut(e) ==
   Need(e.out = "ok", "C11 single-element accessor panics")
   \cup (IF e.out # "ok" THEN {} ELSE
     Need(Transferred(e.after, e.vals, e.c, e.t, 1, 0), "C11 single-element accessor puts a component at a wrong place or value")
     \cup Need(Kept(e.before, e.after, e.c, e.t, 1, 0), "C11 single-element accessor touches bytes outside the element"))
JudgeGet(e) ==
   Need(e.out = "ok", "C11 single-element accessor panics")
   \cup (IF e.out # "ok" THEN {} ELSE
     Need(Transferred(e.bytes, e.after, e.c, e.t, 1, 0), "C11 single-element accessor takes a component from a wrong place"))

(* Write then read at the same stride, and slice against single-element functions. *)
JudgeRound(e) ==
   Need(e.out = "ok", "C11 round trip fails")
   \cup Need(e.out # "ok" \/ e.after = e.vals, "C11 reading back what was written gives other values")

Valid(e) == e.c \in CTypes /\ e.t \in TTypes
JudgeMake(e) ==
   IF ~Valid(e) THEN Need(e.out = "err", "C13 unsupported type code does not give an error")
   ELSE Need(e.out = "ok", "C13 slice creation fails")
     \cup (IF e.out # "ok" THEN {} ELSE
        Need(e.gotype = GoType(e.c, e.t), "C13 created slice has a wrong type")
        \cup Need(e.len = e.n, "C13 created slice has a wrong length")
        \cup Need(e.tc = e.c /\ e.tt = e.t, "C13 created slice is identified as another type")
        \cup Need(e.tn = e.n, "C13 created slice is identified with another count")
        \cup Need(e.outside = <<>>, "C13 created slice uses memory outside the buffer"))
JudgeIdent(e) ==
   Need(e.out = "ok" /\ e.tc = e.c /\ e.tt = (IF e.t = "COLOR" THEN "VEC4" ELSE e.t) /\ e.tn = e.n,
        "C13 a typed slice is identified wrongly")

(* A long slice is transferred as its elements are, one after the other. *)
JudgeBulk(e) ==
   Need(e.out = "ok" /\ e.pieces = "ok", "C11 transfer of a long slice fails")
   \cup Need(e.same, "C11 a long slice is transferred in another way than its elements")
   \cup Need(e.out = "ok" /\ e.same, "C12 transfer of a long slice fails or changes something else")
   \cup Need(e.short = "short", "C12 too few bytes for a long slice are not reported as short buffer")
   \cup Need(e.untouched, "C12 a failed transfer of a long slice changes its destination")

Judge(e) ==
   CASE e.op = "write" -> JudgeWrite(e)
     [] e.op = "read" -> JudgeRead(e)
     [] e.op = "put" -> JudgePut(e)
     [] e.op = "get" -> JudgeGet(e)
     [] e.op = "round" -> JudgeRound(e)
     [] e.op \in {"make", "makebuf"} -> JudgeMake(e)
     [] e.op = "bulk" -> JudgeBulk(e)
     [] e.op = "ident" -> JudgeIdent(e)

Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ Done(l)
        /\ l' = l + 1
=============================================================================
