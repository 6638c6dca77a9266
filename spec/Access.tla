-------------------------------- MODULE Access --------------------------------
(* Reading accessors: which bytes an accessor denotes, when a document is too malformed to
   read one, and what the typed readers make of the elements.

   bufs:  seq of [nil, data]               views: seq of [nil, b, off, len, stride]
   an accessor: [nil, bv (-1: none), hasView, off, c, t, n,
                 sparse: BOOLEAN, sn, ic, ib, ioff, vb, voff]
   Numbers beyond 1000000000 are recorded as that.                                        *)
EXTENDS Layout

ViewOf(d, i) == d.views[i + 1]
InSeq(i, s) == i >= 0 /\ i < Len(s)
BufferOK(d, v) == InSeq(v.b, d.bufs) /\ ~d.bufs[v.b + 1].nil
ViewReadable(d, v) ==
   /\ ~v.nil /\ BufferOK(d, v)
   /\ v.off >= 0 /\ v.len >= 0
   /\ LET n == Len(d.bufs[v.b + 1].data) IN v.off <= n /\ v.len <= n - v.off
ViewBytes(d, v) == SubSeq(d.bufs[v.b + 1].data, v.off + 1, v.off + v.len)
KnownTypes(c, t) == c \in CTypes /\ t \in TTypes

(* A part: elements of a type at an offset of a view. *)
Part(bv, off, c, t, n) == [bv |-> bv, off |-> off, c |-> c, t |-> t, n |-> n]
PartView(d, p) == InSeq(p.bv, d.views) /\ ViewReadable(d, ViewOf(d, p.bv))
Room(d, p) == ViewOf(d, p.bv).len - p.off
Stride(d, p) == ViewOf(d, p.bv).stride
(* All components lie inside the view. *)
Computable(d, p) ==
   /\ PartView(d, p) /\ KnownTypes(p.c, p.t) /\ p.n >= 0
   /\ p.n > 0 => /\ p.off >= 0 /\ p.off <= ViewOf(d, p.bv).len
                 /\ (p.n > 1 => Stride(d, p) >= 0)
                 /\ ~TooShort(p.c, p.t, p.n, IF p.n = 1 THEN 0 ELSE Stride(d, p), Room(d, p))
(* Beyond doubt well-formed. *)
Sound(d, p) ==
   /\ Computable(d, p) /\ p.off >= 0 /\ p.off <= ViewOf(d, p.bv).len
   /\ LegalStride(p.c, p.t, Stride(d, p))
   /\ LongEnough(p.c, p.t, p.n, Stride(d, p), Room(d, p))
(* The bytes of the components, in Go's order. *)
PartBytes(d, p) ==
   LET v == ViewOf(d, p.bv)
       mem == d.bufs[v.b + 1].data
       size == CSize(p.c)
       per == Comps(p.t) * size
       es == EffStride(p.c, p.t, v.stride)
       pos == [k \in 0..(Comps(p.t) - 1) |-> Pos(p.c, p.t, k)]
   IN [x \in 1..(p.n * per) |->
         LET i == (x - 1) \div per
             k == ((x - 1) % per) \div size
         IN mem[1 + v.off + p.off + i * es + pos[k] + ((x - 1) % size)]]

Base(a) == Part(a.bv, a.off, a.c, a.t, a.n)
IdxPart(a) == Part(a.ib, a.ioff, a.ic, "SCALAR", a.sn)
ValPart(a) == Part(a.vb, a.voff, a.c, a.t, a.sn)
IndexTypes == {"ubyte", "ushort", "uint"}
(* A little-endian number; huge ones need not be exact. *)
Num(b) == CASE Len(b) = 1 -> b[1] [] Len(b) = 2 -> b[1] + 256 * b[2]
            [] OTHER -> IF b[4] > 0 THEN 1000000000 ELSE b[1] + 256 * b[2] + 65536 * b[3]
NumAt(s, i, size) == Num(SubSeq(s, i * size + 1, (i + 1) * size))
Idx(d, a) == LET s == PartBytes(d, IdxPart(a)) IN [i \in 1..a.sn |-> NumAt(s, i - 1, CSize(a.ic))]

SparseComputable(d, a) ==
   /\ a.sn >= 0 /\ a.ic \in IndexTypes /\ Computable(d, IdxPart(a)) /\ Computable(d, ValPart(a))
   /\ LET x == Idx(d, a) IN \A i \in DOMAIN x : x[i] < a.n
HasValue(d, a) ==      \* the accessor denotes elements
   /\ ~a.nil /\ a.n >= 0 /\ KnownTypes(a.c, a.t)
   /\ a.hasView => Computable(d, Base(a))
   /\ a.sparse => SparseComputable(d, a)
WellFormed(d, a) ==    \* beyond doubt
   /\ HasValue(d, a)
   /\ a.hasView => Sound(d, Base(a))
   /\ a.sparse => Sound(d, IdxPart(a)) /\ Sound(d, ValPart(a))
ValueSize(a) == Comps(a.t) * CSize(a.c)
(* The elements, with the last matching sparse value. *)
Value(d, a) ==
   LET per == ValueSize(a)
       base == IF a.hasView THEN PartBytes(d, Base(a)) ELSE Zeros(a.n * per)
   IN IF ~a.sparse \/ a.sn = 0 THEN base
      ELSE LET x == Idx(d, a)
               vals == PartBytes(d, ValPart(a))
               Last(i) == LET S == {j \in DOMAIN x : x[j] = i} IN
                          IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
               src == [i \in 0..(a.n - 1) |-> Last(i)]
           IN [y \in 1..(a.n * per) |->
                 LET i == (y - 1) \div per IN
                 IF src[i] = 0 THEN base[y] ELSE vals[(src[i] - 1) * per + ((y - 1) % per) + 1]]
=============================================================================
