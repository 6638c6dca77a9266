------------------------------- MODULE Modeler -------------------------------
(* Building documents: buffers, views, accessors and images that writing operations add,
   what a valid layout is, and what an operation must and must not do.

   A document is  [bufs: seq of [n, data], views: seq of [b, off, len, stride, target],
                   accs: seq of [bv, off, c, t, n, norm, min, max], imgs: seq of [bv, ..]]
   with indices counted from 0, as in the format, and -1 for none.
   The data of an operation is a sequence of items [c, t, n, flat (, name)]; flat holds the
   little-endian bytes of all components of all elements in Go's order.                   *)
EXTENDS Layout

ViewOf(d, i) == d.views[i + 1]
AccOf(d, i) == d.accs[i + 1]
Indices0(s) == 0..(Len(s) - 1)
New(old, new) == Len(old)..(Len(new) - 1)

(* ------------------------------------------------------------ layout *)
ViewInside(d, v) == /\ v.b \in Indices0(d.bufs) /\ v.off >= 0 /\ v.len >= 0 /\ v.stride >= 0
                    /\ v.off + v.len <= Len(d.bufs[v.b + 1].data)
Apart(v, w) == v.b # w.b \/ v.len = 0 \/ w.len = 0 \/ v.off + v.len <= w.off \/ w.off + w.len <= v.off
StrideOf(d, a) == EffStride(a.c, a.t, ViewOf(d, a.bv).stride)
AccInside(d, a) == /\ a.bv \in Indices0(d.views) /\ a.off >= 0
                   /\ a.n = 0 \/ a.off + (a.n - 1) * StrideOf(d, a) + BareSize(a.c, a.t) <= ViewOf(d, a.bv).len
DeclaredLength(b) == b.n = Len(b.data)

(* The bytes of an accessor's components, read at the positions the format gives. *)
Elements(d, a) ==
   LET v == ViewOf(d, a.bv)
       mem == d.bufs[v.b + 1].data
       size == CSize(a.c)
       per == Comps(a.t) * size
   IN [x \in 1..(a.n * per) |->
         LET i == (x - 1) \div per
             k == ((x - 1) % per) \div size
             y == (x - 1) % size
         IN mem[1 + v.off + a.off + i * StrideOf(d, a) + Pos(a.c, a.t, k) + y]]
ViewBytes(d, i) == LET v == ViewOf(d, i) IN SubSeq(d.bufs[v.b + 1].data, v.off + 1, v.off + v.len)

(* Nothing that was there is different. *)
Preserved(old, new) ==
   /\ IsPrefixOf(old.views, new.views) /\ IsPrefixOf(old.accs, new.accs) /\ IsPrefixOf(old.imgs, new.imgs)
   /\ Len(old.bufs) <= Len(new.bufs)
   /\ \A i \in DOMAIN old.bufs : IsPrefixOf(old.bufs[i].data, new.bufs[i].data)

(* Views that several new accessors share. *)
Sharing(old, new, v) == {a \in New(old.accs, new.accs) : AccOf(new, a).bv = v}
Padded(c, t) == ElemSize(c, t) # Comps(t) * CSize(c)

(* ------------------------------------------------------------ numbers *)
(* A key that orders the finite floats and infinities like their values; -0 is 0. *)
FloatKey(b) == IF b[4] < 128 THEN b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
               ELSE -(b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (b[4] - 128))
(* Component k (from 0) of element i (from 0). *)
CompOf(it, i, k) == LET z == CSize(it.c) p == (i * Comps(it.t) + k) * z IN SubSeq(it.flat, p + 1, p + z)
Keys(it, k) == {FloatKey(CompOf(it, i, k)) : i \in 0..(it.n - 1)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y

(* ------------------------------------------------------------ what is permitted *)
Typed == {"WriteIndices", "WriteNormal", "WriteTangent", "WriteTextureCoord", "WriteWeights", "WriteJoints", "WriteInverseBindMatrices",
          "WritePosition", "WriteColor"}
Ints == {"ubyte", "ushort"}
Permitted(use) ==
   CASE use = "WriteIndices" -> {<<"ushort", "SCALAR">>, <<"uint", "SCALAR">>}
     [] use \in {"WriteNormal", "WritePosition", "POSITION"} -> {<<"float", "VEC3">>}
     [] use = "WriteTangent" -> {<<"float", "VEC4">>}
     [] use = "WriteInverseBindMatrices" -> {<<"float", "MAT4">>}
     [] use \in {"WriteTextureCoord", "TEXCOORD_0", "TEXCOORD_1"} -> {"ubyte", "ushort", "float"} \X {"VEC2"}
     [] use \in {"WriteWeights", "WEIGHTS_0"} -> {"ubyte", "ushort", "float"} \X {"VEC4"}
     [] use \in {"WriteJoints", "JOINTS_0"} -> Ints \X {"VEC4"}
     [] use \in {"WriteColor", "COLOR_0"} -> {"ubyte", "ushort", "float"} \X {"VEC3", "VEC4"}
     [] OTHER -> CTypes \X TTypes
(* The helper may be more generous with these. *)
Tolerated(use) == IF use = "WriteIndices" THEN {<<"ubyte", "SCALAR">>} ELSE {}
Fits(use, it) == <<it.c, it.t>> \in Permitted(use)
Wrong(use, it) == <<it.c, it.t>> \notin Permitted(use) \cup Tolerated(use)
Checked == {"POSITION", "TEXCOORD_0", "TEXCOORD_1", "WEIGHTS_0", "JOINTS_0", "COLOR_0"}
Normalized(use, c) ==
   use \in {"WriteTextureCoord", "TEXCOORD_0", "TEXCOORD_1", "WriteWeights", "WEIGHTS_0", "WriteColor", "COLOR_0"} /\ c \in Ints
(* Attribute names beyond those the library knows are not judged. *)
NormKnown(use) == use \in Typed \cup Checked \cup {"NORMAL", "TANGENT", "_X", "_CUSTOM", "WriteAccessor", "WriteAccessorsInterleaved"}
Positions == {"WritePosition", "POSITION"}

Used(op) == IF op.call = "WritePrimitiveAttributes" THEN SelectSeq(op.items, LAMBDA it : it.n > 0) ELSE op.items
Use(op, it) == IF op.call = "WritePrimitiveAttributes" THEN it.name ELSE op.call
SameLengths(its) == \A i, j \in DOMAIN its : its[i].n = its[j].n
Groups == {"WriteAccessorsInterleaved", "WriteBufferViewInterleaved", "WritePrimitiveAttributes"}

MustFail(op) ==
   \/ op.call = "WriteImage" /\ op.broken
   \/ op.call \in Groups /\ ~SameLengths(Used(op))
   \/ op.call \in Typed /\ \E i \in DOMAIN op.items : Wrong(op.call, op.items[i])
   \/ op.call = "WritePrimitiveAttributes" /\ \E i \in DOMAIN Used(op) : Used(op)[i].name \in Checked /\ Wrong(Used(op)[i].name, Used(op)[i])
MustSucceed(op) ==
   /\ op.call = "WriteImage" => ~op.broken
   /\ op.call \in Groups => SameLengths(Used(op))
   /\ op.call \in Typed => \A i \in DOMAIN op.items : Fits(op.call, op.items[i])
   /\ op.call = "WritePrimitiveAttributes" => \A i \in DOMAIN Used(op) : ~Wrong(Used(op)[i].name, Used(op)[i])

(* ------------------------------------------------------------ the intended writer (design) *)
Padding(n) == AlignUp(n, 4) - n
Last(d) == IF d.bufs = <<>> THEN [n |-> 0, data |-> <<>>] ELSE d.bufs[Len(d.bufs)]
Append4(d, bytes, pad) ==     \* the document with bytes (after padding) at the end of the last buffer
   LET b == Last(d)
       data == b.data \o Zeros(IF pad THEN Padding(Len(b.data)) ELSE 0) \o bytes
       nb == [n |-> Len(data), data |-> data]
   IN [d EXCEPT !.bufs = IF d.bufs = <<>> THEN <<nb>> ELSE [d.bufs EXCEPT ![Len(d.bufs)] = nb]]
Slot(it, group) == IF group THEN AlignUp(ElemSize(it.c, it.t), 4) ELSE ElemSize(it.c, it.t)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Slots(its) == [i \in DOMAIN its |-> Slot(its[i], Len(its) > 1)]
Start(its, i) == Sum(SubSeq(Slots(its), 1, i - 1))
Image(its) ==    \* the bytes of the view
   LET row == Sum(Slots(its))
       starts == [i \in DOMAIN its |-> Start(its, i)]
       Spans(y) == {<<j, k>> \in (DOMAIN its) \X (0..15) :
                      LET p == starts[j] + Pos(its[j].c, its[j].t, k) IN k < Comps(its[j].t) /\ p <= y /\ y < p + CSize(its[j].c)}
       source == [y \in 0..(row - 1) |->     \* item, component and byte; none in the padding
                    IF Spans(y) = {} THEN <<0, 0, 0>>
                    ELSE LET q == CHOOSE q \in Spans(y) : TRUE IN <<q[1], q[2], y - starts[q[1]] - Pos(its[q[1]].c, its[q[1]].t, q[2])>>]
   IN [x \in 1..(its[1].n * row) |->
        LET i == (x - 1) \div row q == source[(x - 1) % row] IN
        IF q[1] = 0 THEN 0 ELSE its[q[1]].flat[(i * Comps(its[q[1]].t) + q[2]) * CSize(its[q[1]].c) + q[3] + 1]]
ViewFor(d, its, target) ==
   [b |-> Max(0, Len(d.bufs) - 1), off |-> Len(Last(d).data), len |-> its[1].n * Sum(Slots(its)), target |-> target,
    stride |-> IF Len(its) > 1 THEN Sum(Slots(its))
               ELSE IF target = "array" /\ Padded(its[1].c, its[1].t) THEN ElemSize(its[1].c, its[1].t) ELSE 0]
AddView(d, its, target) == [Append4(d, Image(its), FALSE) EXCEPT !.views = Append(d.views, ViewFor(d, its, target))]
AddAccs(d, its, norms) ==
   LET p == Append4(d, <<>>, TRUE) e == AddView(p, its, "array") IN
   [e EXCEPT !.accs = d.accs \o [i \in DOMAIN its |->
       [bv |-> Len(e.views) - 1, off |-> Start(its, i), c |-> its[i].c, t |-> its[i].t, n |-> its[i].n, norm |-> norms[i], min |-> <<>>, max |-> <<>>]]]

(* ------------------------------------------------------------ judging an operation *)
NewAccs(op, new) == [i \in DOMAIN Used(op) |-> AccOf(new, op.idx[i])]
MakesAccs(op) == op.call \notin {"WriteBufferView", "WriteBufferViewInterleaved", "WriteImage"}
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

IndexGood(old, op, new) ==
   LET va == New(old.views, new.views) aa == New(old.accs, new.accs) ia == New(old.imgs, new.imgs) its == Used(op) IN
   IF its = <<>> THEN va = {} /\ aa = {}      \* nothing to write, nothing to add
   ELSE IF MakesAccs(op) THEN /\ Len(op.idx) = Len(its) /\ Distinct(op.idx) /\ Range(op.idx) = aa
                              /\ \A a \in aa : AccOf(new, a).bv \in va
   ELSE IF op.call = "WriteImage" THEN Len(op.idx) = 1 /\ Range(op.idx) = ia /\ new.imgs[op.idx[1] + 1].bv \in va
   ELSE Len(op.idx) = 1 /\ Range(op.idx) = va

JudgeLayout(old, op, new) ==
   Need(IndexGood(old, op, new), "C15 the returned index is not that of the new entry")
   \cup Need(\A i \in DOMAIN new.bufs : DeclaredLength(new.bufs[i]), "C15 declared length and data length of a buffer differ")
   \cup (IF \E v \in New(old.views, new.views) : ~ViewInside(new, ViewOf(new, v)) THEN {"C15 a view reaches outside its buffer"} ELSE
      Need(\A v \in New(old.views, new.views) : \A w \in Indices0(new.views) : w # v => Apart(ViewOf(new, v), ViewOf(new, w)), "C15 views overlap")
      \cup (IF \E a \in New(old.accs, new.accs) : ~AccInside(new, AccOf(new, a)) THEN {"C15 an accessor reaches outside its view"} ELSE
         Need(\A a \in New(old.accs, new.accs) : LET x == AccOf(new, a) IN (ViewOf(new, x.bv).off + x.off) % 4 = 0,
              "C15 an accessor does not start on a multiple of four")
         \cup Need(\A a \in New(old.accs, new.accs) :
              LET x == AccOf(new, a) IN
              (\/ Cardinality(Sharing(old, new, x.bv)) > 1
               \/ Comps(x.t) > 1 /\ ViewOf(new, x.bv).target = "array") => (x.n < 2 \/ StrideOf(new, x) % 4 = 0),
              "C15 an element is not aligned")
         \cup Need(\A a \in New(old.accs, new.accs) :
              LET x == AccOf(new, a) IN
              (\/ Cardinality(Sharing(old, new, x.bv)) > 1
               \/ Padded(x.c, x.t) /\ ViewOf(new, x.bv).target = "array") => ViewOf(new, x.bv).stride > 0,
              "C15 the stride is not declared")))
JudgeViewStride(op, new) ==   \* raw views
   IF MakesAccs(op) \/ op.call = "WriteImage" \/ Len(op.idx) # 1 THEN {}
   ELSE IF op.idx[1] \notin Indices0(new.views) THEN {}
   ELSE LET v == ViewOf(new, op.idx[1]) its == op.items
            vertices == v.target = "array" /\ \E i \in DOMAIN its : Comps(its[i].t) > 1 IN
        Need(Len(its) > 1 => v.stride > 0 /\ v.stride % 4 = 0, "C15 the stride is not declared")
        \cup Need(vertices /\ Padded(its[1].c, its[1].t) => v.stride > 0 /\ v.stride % 4 = 0, "C15 the stride is not declared")

JudgeMeta(old, op, new) ==
   LET its == Used(op) IN
   IF its = <<>> \/ ~MakesAccs(op) THEN Need(op.call = "WritePrimitiveAttributes" /\ its = <<>> => op.names = <<>> /\ op.idx = <<>>, "C16 attributes out of nothing")
   ELSE IF op.call = "WritePrimitiveAttributes" /\ (Len(op.names) # Len(its) \/ Range(op.names) # {its[i].name : i \in DOMAIN its})
        THEN {"C16 the attribute map does not name exactly the attributes with data"}
   ELSE IF Len(op.idx) # Len(its) \/ ~(Range(op.idx) \subseteq Indices0(new.accs)) THEN {"C16 no accessor for the data"}
   ELSE UNION {LET it == its[i] a == AccOf(new, op.idx[i]) use == Use(op, it) IN
      Need(a.c = it.c /\ a.t = it.t /\ a.n = it.n, "C16 component type, element type or count is wrong")
      \cup Need(NormKnown(use) => a.norm = Normalized(use, it.c), "C16 normalized is wrong")
      \cup Need(use \in Positions /\ it.n > 0 => 
                /\ Len(a.min) = 3 /\ Len(a.max) = 3
                /\ \A k \in 0..2 : a.min[k + 1] = Least(Keys(it, k)) /\ a.max[k + 1] = Greatest(Keys(it, k)),
                "C16 bounds of the positions are wrong")
      \cup (IF a.bv \notin Indices0(new.views) THEN {} ELSE
            LET g == ViewOf(new, a.bv).target IN
            Need(use = "WriteIndices" => g = "element", "C16 indices do not target an element array")
            \cup Need(use \in (Typed \cup Groups) \ {"WriteIndices", "WriteInverseBindMatrices"} => g = "array", "C16 vertices do not target a vertex array")
            \cup Need(op.call = "WritePrimitiveAttributes" => g = "array", "C16 vertices do not target a vertex array")
            \cup Need(op.call = "WriteAccessor" => g = op.target, "C16 the target is not the given one"))
      : i \in DOMAIN its}
JudgeImage(op, new) ==
   IF op.call # "WriteImage" \/ Len(op.idx) # 1 THEN {}
   ELSE IF op.idx[1] \notin Indices0(new.imgs) THEN {}
   ELSE Need(new.imgs[op.idx[1] + 1].name = op.name /\ new.imgs[op.idx[1] + 1].mime = op.mime, "C16 name or type of the image is wrong")

JudgeWrite(old, op, new) ==
   IF op.out = "ok" THEN
      Need(~MustFail(op), "C16 wrong data is not refused")
      \cup Need(Preserved(old, new), "C14 bytes, views or accessors that were there are changed")
      \cup JudgeLayout(old, op, new) \cup JudgeViewStride(op, new) \cup JudgeMeta(old, op, new) \cup JudgeImage(op, new)
   ELSE Need(~MustSucceed(op), "C16 permitted data is refused")
        \cup Need(old = new /\ op.same, "C17 a failed operation changes the document")
=============================================================================
