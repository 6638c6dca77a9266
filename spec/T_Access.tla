------------------------------- MODULE T_Access -------------------------------
(* Judges recorded reads of accessors and views against Access. *)
EXTENDS Large, TraceRun

VARIABLES l, st
None == [refs |-> <<>>, got |-> <<>>]
Init == l = 1 /\ st = None

(* A read by ReadAccessor: e.d, e.a, e.out, e.gt (Go type), e.flat *)
IsValue(e) == e.gt = GoType(e.a.c, e.a.t) /\ e.flat = Value(e.d, e.a)
Failed(e) == e.out \in {"err", "short"}
HugeNoView(a) == ~a.nil /\ ~a.hasView /\ a.n >= 1000000000
JudgeRead(e) ==
   IF e.out = "panic" THEN
      IF HugeNoView(e.a) THEN {"C20 reading panics [key=ReadAccessor/no-view/huge-count]"} ELSE {"C20 reading panics", "C18 reading panics"}
   ELSE IF ~HasValue(e.d, e.a) THEN Need(Failed(e), "C20 a malformed accessor is read without error")
   ELSE IF WellFormed(e.d, e.a) THEN
      Need(e.out = "ok", "C18 reading a well-formed accessor fails")
      \cup Need(e.out # "ok" \/ IsValue(e), "C18 the elements read are not those the accessor denotes")
   ELSE Need(e.out # "ok" \/ IsValue(e), "C20 a malformed accessor is read as other data")

(* Typed readers on the same accessors.  Those that do not compute anything read the elements too. *)
Exact(f, c, t) == f \in {"ReadIndices", "ReadJoints"} \/ <<c, t>> = Target(f)
ReadsElements(e) ==
   (<<e.a.c, e.a.t>> \in Permitted(e.fn) /\ Exact(e.fn, e.a.c, e.a.t) /\ WellFormed(e.d, e.a)) =>
      /\ e.out = "ok" /\ e.n = e.a.n
      /\ Converted(e.fn, e.a.c, e.a.t, e.a.n, Fixed(Value(e.d, e.a)), e.flat)
JudgeTyped(e) ==
   Need(ReadsElements(e), "C18 a typed reader does not return the elements the accessor denotes") \cup
   IF e.out = "panic" THEN
      IF HugeNoView(e.a) THEN {"C20 a typed reader panics [key=ReadAccessor/no-view/huge-count]"} ELSE {"C20 a typed reader panics"}
   ELSE Need(HasValue(e.d, e.a) \/ Failed(e), "C20 a typed reader reads a malformed accessor without error")
        \cup Need(e.out # "ok" \/ ~HasValue(e.d, e.a) \/ e.n = e.a.n, "C20 a typed reader returns another number of elements")

(* e.d, e.v: a view *)
JudgeView(e) ==
   IF e.out = "panic" THEN {"C20 reading a buffer view panics", "C18 reading a buffer view panics"}
   ELSE IF ~ViewReadable(e.d, e.v) THEN Need(Failed(e), "C20 a malformed buffer view is read without error")
   ELSE Need(e.out = "ok", "C18 reading a well-formed buffer view fails")
        \cup Need(e.out # "ok" \/ e.bytes = ViewBytes(e.d, e.v), "C18 the bytes read are not those of the view")

(* Large ones: e.fn is "ReadAccessor" or "ReadBufferView" *)
JudgeLarge(e) ==
   IF e.out # "ok" THEN {"C18 reading a well-formed large accessor or view fails"}
   ELSE IF e.fn \in Functions THEN
      Need(Exact(e.fn, e.a.c, e.a.t) => e.n = e.a.n /\ Converted(e.fn, e.a.c, e.a.t, Len(e.at), LargeValue(e), e.flat),
           "C18 a typed reader does not return the elements the large accessor denotes")
   ELSE Need(e.n = e.a.n /\ (e.fn = "ReadBufferView" \/ e.gt = GoType(e.a.c, e.a.t)) /\ e.flat = LargeValue(e),
             "C18 the elements read are not those the large accessor denotes")

(* Histories of reads.  ref: the result of a first read with fresh memory. *)
Outcome(e) == [out |-> e.out, gt |-> e.gt, flat |-> e.flat]
JudgeAgain(e) ==
   IF e.out = "panic" /\ st.refs[e.k].out # "panic" THEN {"C19 reading panics depending on the memory handed in or earlier reads"}
   ELSE IF e.out # st.refs[e.k].out THEN {"C19 whether reading succeeds depends on the memory handed in, earlier or concurrent reads"}
   ELSE Need(Outcome(e) = st.refs[e.k], "C19 the result of reading depends on the memory handed in, earlier or concurrent reads")
JudgeStill(e) == Need(e.flat = st.got[e.id], "C19 a later read changes an earlier result")

Judge(e) ==
   CASE e.op = "read" -> JudgeRead(e)
     [] e.op = "typed" -> JudgeTyped(e)
     [] e.op = "view" -> JudgeView(e)
     [] e.op = "large" -> JudgeLarge(e)
     [] e.op \in {"start", "ref"} -> {}
     [] e.op = "again" -> JudgeAgain(e)
     [] e.op = "still" -> JudgeStill(e)
     [] e.op = "doc" -> Need(e.same, "C19 reading modifies the document")

Step(e) ==
   CASE e.op = "start" -> None
     [] e.op = "ref" -> [st EXCEPT !.refs = Append(@, Outcome(e))]
     [] e.op = "again" -> [st EXCEPT !.got = Append(@, e.flat)]
     [] OTHER -> st

Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ Done(l)
        /\ st' = Step(Trace[l])
        /\ l' = l + 1
=============================================================================
