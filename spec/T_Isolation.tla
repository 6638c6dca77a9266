----------------------------- MODULE T_Isolation -----------------------------
(* Judges recorded histories of several documents.  An event has the acts that were done,
   at the same time when there are several, and identifies all the documents afterwards.
   Known results: what the same origin was like, encoded to, or read as before.         *)
EXTENDS Isolation, TraceRun

VARIABLES pos, org, docs, known
Init == pos = 1 /\ org = <<>> /\ docs = <<>> /\ known = {}

Touched(e) == {e.acts[i].slot : i \in DOMAIN e.acts}
(* what act a gives as result: [key, value] *)
Result(e, a, o) ==
   LET n == NewOrigin(a.do, a.key, o) IN
   IF Makes(a.do) THEN {[key |-> n, what |-> "doc", value |-> e.docs[a.slot]]}
   ELSE IF a.do \in {"encode", "read"} THEN {[key |-> o, what |-> a.how, value |-> a.res]}
   ELSE {}
Results(e) == UNION {Result(e, e.acts[i], org[e.acts[i].slot]) : i \in DOMAIN e.acts}
Contradicts(x, ks) == \E k \in ks : k.key = x.key /\ k.what = x.what /\ k.value # x.value
Judge(e) ==
   IF e.op = "start" THEN {}
   ELSE {"C27 a document changes although nothing is done to it" : s \in {t \in DOMAIN docs : t \notin Touched(e) /\ e.docs[t] # docs[t]}}
   \cup UNION {LET a == e.acts[i] IN
        Need(a.out = "ok", "C27 " \o a.do \o " fails")
        \cup Need(a.do \notin {"encode", "read"} \/ e.docs[a.slot] = docs[a.slot], "C27 a document is changed by " \o a.do)
        \cup (IF a.out # "ok" THEN {} ELSE
              UNION {Need(~Contradicts(x, known \cup Results(e)), "C27 the result of " \o a.do \o " depends on other documents") : x \in Result(e, a, org[a.slot])})
        : i \in DOMAIN e.acts}
OriginAfter(e) == [s \in DOMAIN org |->
   IF \E i \in DOMAIN e.acts : e.acts[i].slot = s
   THEN LET a == e.acts[CHOOSE i \in DOMAIN e.acts : e.acts[i].slot = s] IN IF a.out = "ok" THEN NewOrigin(a.do, a.key, org[s]) ELSE Wild
   ELSE org[s]]

Next == /\ pos <= Len(Trace)
        /\ Report(pos, Judge(Trace[pos]))
        /\ Done(pos)
        /\ docs' = Trace[pos].docs
        /\ org' = IF Trace[pos].op = "start" THEN [s \in DOMAIN Trace[pos].docs |-> None] ELSE OriginAfter(Trace[pos])
        /\ known' = IF Trace[pos].op = "start" THEN {} ELSE known \cup {x \in Results(Trace[pos]) : ~Contradicts(x, known)}
        /\ pos' = pos + 1
=============================================================================
