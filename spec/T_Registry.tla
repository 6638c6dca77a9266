----------------------------- MODULE T_Registry -----------------------------
(* Judges recorded histories of registrations and decodings. e.regs: [n, v, b, e];
   e.decs: [b, e, out, seen], seen: [n, v, at, same] for every place that has an extension. *)
EXTENDS Registry, TraceRun

VARIABLES pos
Init == pos = 1

NamesOf(h) == {h.regs[i].n : i \in DOMAIN h.regs} \cup UNION {{h.decs[i].seen[j].n : j \in DOMAIN h.decs[i].seen} : i \in DOMAIN h.decs}
WritesOf(h, n) == {InitialWrite} \cup {[v |-> h.regs[i].v, b |-> h.regs[i].b, e |-> h.regs[i].e] : i \in {j \in DOMAIN h.regs : h.regs[j].n = n}}
ReadsOf(h, n) == UNION {LET d == h.decs[i] IN
                        {[v |-> d.seen[j].v, b |-> d.b, e |-> Min(d.e, d.seen[j].at)] : j \in {k \in DOMAIN d.seen : d.seen[k].n = n}} : i \in DOMAIN h.decs}

JudgeRead(ws, r) ==
   IF r.v = 0 THEN Need(Current(ws, r), "C24 a registered name is treated as unknown")
   ELSE IF ~\E w \in ws : w.v = r.v THEN {"C24 a handler of another name is used"}
   ELSE Need(Current(ws, r), "C24 a handler is used that was not current")
JudgeName(ws, rs) ==
   LET alone == UNION {JudgeRead(ws, r) : r \in rs} IN
   IF alone # {} THEN alone ELSE Need(Linearizable(ws, rs), "C24 no order of the registrations explains the handlers used")
Judge(h) ==
   UNION {JudgeName(WritesOf(h, n), ReadsOf(h, n)) : n \in NamesOf(h)}
   \cup UNION {Need(h.decs[i].out = "ok", "C24 decoding fails") : i \in DOMAIN h.decs}
   \cup UNION {UNION {Need(h.decs[i].seen[j].same, "C24 a payload reaches its handler or the document changed") : j \in DOMAIN h.decs[i].seen} : i \in DOMAIN h.decs}

Next == /\ pos <= Len(Trace)
        /\ Report(pos, Judge(Trace[pos]))
        /\ Done(pos)
        /\ pos' = pos + 1
=============================================================================
