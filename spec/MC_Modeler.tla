----------------------------- MODULE MC_Modeler -----------------------------
(* Design: any sequence of writing operations, failed ones and round trips through a
   container.  The intended writer satisfies every judgement, and whatever was written
   stays readable.                                                                   *)
EXTENDS Modeler

CONSTANTS Types, Ns, MaxOps, Targets

VARIABLES doc, ghosts, k
vars == <<doc, ghosts, k>>

T(x) == CASE x = "u1" -> <<"ubyte", "SCALAR">> [] x = "u3" -> <<"ubyte", "VEC3">> [] x = "s3" -> <<"ushort", "VEC3">>
          [] x = "m2" -> <<"byte", "MAT2">> [] x = "m3" -> <<"short", "MAT3">> [] x = "f2" -> <<"float", "VEC2">> [] x = "s1" -> <<"short", "SCALAR">>
Item(x, n, tag) == [c |-> T(x)[1], t |-> T(x)[2], n |-> n, flat |-> [j \in 1..(n * Comps(T(x)[2]) * CSize(T(x)[1])) |-> tag * 1000 + j]]

Empty == [bufs |-> <<>>, views |-> <<>>, accs |-> <<>>, imgs |-> <<>>]
Loaded == [bufs |-> <<[n |-> 3, data |-> <<91, 92, 93>>], [n |-> 5, data |-> <<81, 82, 83, 84, 85>>]>>,
           views |-> <<[b |-> 1, off |-> 1, len |-> 3, stride |-> 0, target |-> "none"]>>, accs |-> <<>>, imgs |-> <<>>]
Init == doc \in {Empty, Loaded} /\ ghosts = {} /\ k = 0

Record(a, it) == [kind |-> "acc", i |-> a, flat |-> it.flat]
Do(op, new, gs) == /\ k < MaxOps /\ k' = k + 1 /\ doc' = new /\ ghosts' = ghosts \cup gs
                   /\ Assert(JudgeWrite(doc, op, new) = {}, <<"judged", op, JudgeWrite(doc, op, new)>>)

Single == \E x \in Types, n \in Ns :
   LET it == Item(x, n, k + 1) e == AddAccs(doc, <<it>>, <<FALSE>>) a == Len(doc.accs) IN
   Do([call |-> "WriteAccessor", items |-> <<it>>, target |-> "array", out |-> "ok", idx |-> <<a>>], e, {Record(a, it)})
Group == \E x, y \in Types, n \in Ns :
   LET its == <<Item(x, n, k + 1), Item(y, n, 10 * (k + 1))>> e == AddAccs(doc, its, <<FALSE, FALSE>>) a == Len(doc.accs) IN
   Do([call |-> "WriteAccessorsInterleaved", items |-> its, out |-> "ok", idx |-> <<a, a + 1>>], e, {Record(a, its[1]), Record(a + 1, its[2])})
Raw == \E n \in Ns, g \in Targets :
   LET it == [c |-> "ubyte", t |-> "SCALAR", n |-> n, flat |-> [j \in 1..n |-> k * 100 + j]] v == Len(doc.views) IN
   Do([call |-> "WriteBufferView", items |-> <<it>>, target |-> g, out |-> "ok", idx |-> <<v>>], AddView(doc, <<it>>, g),
      {[kind |-> "view", i |-> v, flat |-> it.flat]})
Fail == \E x \in Types :
   LET its == <<Item(x, 1, 1), Item(x, 2, 2)>> IN
   Do([call |-> "WriteAccessorsInterleaved", items |-> its, out |-> "err", same |-> TRUE, idx |-> <<>>], doc, {})
Reload == /\ k < MaxOps /\ k' = k + 1 /\ UNCHANGED ghosts
          /\ doc' = [doc EXCEPT !.bufs = [i \in DOMAIN doc.bufs |-> [doc.bufs[i] EXCEPT !.data = SubSeq(doc.bufs[i].data, 1, doc.bufs[i].n)]]]

Next == Single \/ Group \/ Raw \/ Fail \/ Reload
Spec == Init /\ [][Next]_vars

StaysReadable == \A g \in ghosts : IF g.kind = "acc" THEN Elements(doc, AccOf(doc, g.i)) = g.flat ELSE ViewBytes(doc, g.i) = g.flat
Valid == /\ \A v \in Indices0(doc.views) : ViewInside(doc, ViewOf(doc, v))
         /\ \A v, w \in Indices0(doc.views) : v # w => Apart(ViewOf(doc, v), ViewOf(doc, w))
         /\ \A a \in Indices0(doc.accs) : AccInside(doc, AccOf(doc, a))
         /\ \A i \in DOMAIN doc.bufs : DeclaredLength(doc.bufs[i])
Inv == StaysReadable /\ Valid
=============================================================================
