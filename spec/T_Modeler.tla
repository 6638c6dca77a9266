------------------------------ MODULE T_Modeler ------------------------------
(* Judges recorded histories of writing operations against Modeler. *)
EXTENDS Modeler, TraceRun

VARIABLES l, st
NoDoc == [bufs |-> <<>>, views |-> <<>>, accs |-> <<>>, imgs |-> <<>>]
Init == l = 1 /\ st = [doc |-> NoDoc, ghosts |-> <<>>]

(* What an operation has written, to be found again: [kind, i, c, t, n, flat]. *)
Ghost(kind, i, it) == [kind |-> kind, i |-> i, c |-> it.c, t |-> it.t, n |-> it.n, flat |-> it.flat]
Written(op) ==
   IF op.out # "ok" \/ Len(op.idx) = 0 THEN <<>>
   ELSE LET its == Used(op) IN
        IF MakesAccs(op) THEN IF Len(op.idx) # Len(its) THEN <<>> ELSE [i \in DOMAIN its |-> Ghost("acc", op.idx[i], its[i])]
        ELSE IF op.call = "WriteImage" THEN <<Ghost("img", op.idx[1], its[1])>>
        ELSE IF Len(its) = 1 THEN <<Ghost("view", op.idx[1], its[1])>> ELSE <<>>

JudgeReads(e) ==
   IF Len(e.r) # Len(st.ghosts) THEN {"C14 the driver lost something"}
   ELSE UNION {LET g == st.ghosts[i] x == e.r[i] IN
      IF g.n = 0 THEN Need(x.out # "panic", "C14 reading empty data panics")
      ELSE IF x.out # "ok" THEN {"C14 written data cannot be read"}
      ELSE Need(x.c = g.c /\ x.t = g.t /\ x.flat = g.flat, "C14 written data reads back changed")
      : i \in DOMAIN st.ghosts}

JudgeReload(e) ==
   IF e.out # "ok" THEN {"C14 the document does not survive encoding and decoding"}
   ELSE Need(e.doc.views = st.doc.views /\ e.doc.accs = st.doc.accs /\ e.doc.imgs = st.doc.imgs, "C14 encoding and decoding changes views, accessors or images")
        \cup Need(e.doc.bufs = st.doc.bufs, "C14 encoding and decoding changes the data")

Judge(e) ==
   CASE e.op = "start" -> {}
     [] e.op = "write" -> JudgeWrite(st.doc, e, e.doc)
     [] e.op = "buffer" -> {}
     [] e.op = "reads" -> JudgeReads(e)
     [] e.op = "reload" -> JudgeReload(e)
     [] e.op = "twin" -> Need(e.same, "C17 a failed operation influences later ones")

Step(e) ==
   CASE e.op = "start" -> [doc |-> e.doc, ghosts |-> <<>>]
     [] e.op = "write" -> [doc |-> e.doc, ghosts |-> st.ghosts \o Written(e)]
     [] e.op = "reload" -> [st EXCEPT !.doc = e.doc]
     [] e.op = "buffer" -> [st EXCEPT !.doc = e.doc]
     [] OTHER -> st

Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ Done(l)
        /\ st' = Step(Trace[l])
        /\ l' = l + 1
=============================================================================
