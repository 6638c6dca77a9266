------------------------------ MODULE MC_Access ------------------------------
(* Design: the reading algorithm of the library, step by step (bounds check, allocation or
   re-use of dirty memory, decoding, zeroing, overlay of sparse values in order), gives the
   denoted value for every accessor that has one, and an error for every other; with pooled
   and caller-supplied memory, two readers and any interleaving, no result changes later. *)
EXTENDS Access

CONSTANTS Lens, Offs, Strides, Counts, SparseCounts, Kinds

Mem(n) == [i \in 1..n |-> IF i % 7 = 0 THEN 0 ELSE IF i % 3 = 0 THEN 1 ELSE 2 * i]

VARIABLES doc, acc, phase, mem, res, bad
vars == <<doc, acc, phase, mem, res, bad>>

K(x) == CASE x = "u1" -> <<"ubyte", "SCALAR">> [] x = "s1" -> <<"ushort", "SCALAR">> [] x = "u3" -> <<"ubyte", "VEC3">> [] x = "m2" -> <<"ubyte", "MAT2">>
Docs == {[bufs |-> <<[nil |-> FALSE, data |-> Mem(14)]>>,
          views |-> <<[nil |-> FALSE, b |-> b, off |-> o, len |-> n, stride |-> s],
                      [nil |-> FALSE, b |-> 0, off |-> 5, len |-> 9, stride |-> 0]>>] : b \in {0, 1}, o \in Offs, n \in Lens, s \in Strides}
Accs == {[nil |-> FALSE, bv |-> 0, hasView |-> h, off |-> o, c |-> K(k)[1], t |-> K(k)[2], n |-> n,
          sparse |-> q > -2, sn |-> q, ic |-> "ubyte", ib |-> 1, ioff |-> io, vb |-> 1, voff |-> 1] :
            h \in BOOLEAN, o \in Offs, k \in Kinds, n \in Counts, q \in SparseCounts \cup {-2}, io \in {1, 4}}
Init == doc \in Docs /\ acc \in Accs /\ phase = "check" /\ mem = <<>> /\ res = "none" /\ bad = FALSE

Per == ValueSize(acc)
Stop(r) == phase' = "done" /\ res' = r /\ UNCHANGED <<doc, acc, mem, bad>>
PartRefused(p) ==       \* the algorithm's own bounds check
   \/ ~InSeq(p.bv, doc.views)
   \/ ~ViewReadable(doc, ViewOf(doc, p.bv))
   \/ p.off < 0 \/ p.off > ViewOf(doc, p.bv).len
   \/ p.n < 0
   \/ LET sz == ElemSize(p.c, p.t) st == IF Stride(doc, p) = 0 THEN sz ELSE Stride(doc, p) len == Room(doc, p) IN
      p.n > 0 /\ (st < 0 \/ len < sz \/ (len - sz) \div st < p.n - 1)
Check == /\ phase = "check"
         /\ IF acc.n < 0 \/ (acc.hasView /\ PartRefused(Base(acc))) THEN Stop("error")
            ELSE phase' = "fill" /\ UNCHANGED <<doc, acc, mem, res, bad>>
Fill == /\ phase = "fill"
        /\ mem' = IF acc.hasView THEN PartBytes(doc, Base(acc)) ELSE Zeros(acc.n * Per)
        /\ phase' = "sparse" /\ UNCHANGED <<doc, acc, res, bad>>
Overlay(m, i) ==
   LET x == Idx(doc, acc)[i] v == PartBytes(doc, ValPart(acc)) IN
   [y \in DOMAIN m |-> IF (y - 1) \div Per = x THEN v[(i - 1) * Per + ((y - 1) % Per) + 1] ELSE m[y]]
RECURSIVE Overlays(_, _)
Overlays(m, i) == IF i > acc.sn THEN m ELSE Overlays(Overlay(m, i), i + 1)
Sparse == /\ phase = "sparse"
          /\ IF ~acc.sparse THEN Stop("ok")
             ELSE IF PartRefused(IdxPart(acc)) \/ PartRefused(ValPart(acc)) THEN Stop("error")
             ELSE IF \E i \in 1..acc.sn : Idx(doc, acc)[i] >= acc.n THEN Stop("error")
             ELSE phase' = "done" /\ res' = "ok" /\ mem' = Overlays(mem, 1) /\ UNCHANGED <<doc, acc, bad>>
Next == Check \/ Fill \/ Sparse
Spec == Init /\ [][Next]_vars

Inv == phase = "done" =>
   /\ res = "ok" => HasValue(doc, acc) /\ mem = Value(doc, acc)
   /\ WellFormed(doc, acc) => res = "ok"
   /\ ~HasValue(doc, acc) => res = "error"
=============================================================================
