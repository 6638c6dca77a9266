------------------------------ MODULE T_Effects ------------------------------
(* Judges recorded histories of encodings of one document.  The model's document is what
   e.mem identifies: per part of the document, everything that can be reached from it.
   Runs: [key, out, main, files], where key is the mode and runs with faults have none. *)
EXTENDS Effects, TraceRun

VARIABLES pos, state
Init == pos = 1 /\ state = [mem |-> <<>>, runs |-> <<>>]

Changed(a, b) == {f \in DOMAIN a : a[f] # b[f]}
Result(x) == [out |-> x.out, main |-> x.main, files |-> x.files]
(* A run that does not succeed may have written something before. *)
Alike(x, y) == (x.out = "ok") = (y.out = "ok") /\ (x.out = "ok" => Result(x) = Result(y))
Before(h, k) == {h[i] : i \in {j \in DOMAIN h : h[j].key = k}}

JudgeRun(h, x) ==
   UNION {Need(Alike(x, y), "C08 encoding again in the same mode has another result") : y \in IF x.key = "" THEN {} ELSE Before(h, x.key)}
   \cup Need(x.key = "" \/ Alike(x, x.twin), "C08 the result of encoding depends on what was done before")
JudgeEnc(e) ==
   {"C08 encoding changes the " \o f \o " of the document" : f \in Changed(state.mem, e.mem)}
   \cup {"C08 the " \o f \o " of the document is changed while it is encoded" : f \in {e.during[i] : i \in DOMAIN e.during}}
   \cup UNION {JudgeRun(state.runs \o SubSeq(e.runs, 1, i - 1), e.runs[i]) : i \in DOMAIN e.runs}

Judge(e) == IF e.op = "enc" THEN JudgeEnc(e) ELSE {}
Step(e) ==
   IF e.op \in {"start", "edit"} THEN [mem |-> e.mem, runs |-> <<>>]
   ELSE [mem |-> e.mem, runs |-> state.runs \o e.runs]

Next == /\ pos <= Len(Trace)
        /\ Report(pos, Judge(Trace[pos]))
        /\ Done(pos)
        /\ state' = Step(Trace[pos])
        /\ pos' = pos + 1
=============================================================================
