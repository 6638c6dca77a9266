---------------------------- MODULE MC_Registry -----------------------------
(* Design: registrations and decodings on a map protected by a lock with many readers or
   one writer, a waiting writer keeping new readers out.  A decoding looks up the handler
   of each name and runs it without holding the lock; the handler of the first name decodes
   the second name itself.                                                              *)
EXTENDS Registry

CONSTANTS Registrars, Decoders, Ops       \* operations of all processes together

Names == {1, 2}
VARIABLES reg,                            \* name -> version
          readers, waiting, writer,       \* the lock
          pc, left, tick, version,        \* step of each process; operations left; clock; last version
          task, began, seen,              \* per process: registration [n, v] or names still to look up; lookups
          writes, reads                   \* history per name
vars == <<reg, readers, waiting, writer, pc, left, tick, version, task, began, seen, writes, reads>>
Procs == Registrars \cup Decoders

Init == /\ reg = [n \in Names |-> 0] /\ readers = {} /\ waiting = {} /\ writer = {}
        /\ pc = [p \in Procs |-> "idle"] /\ left = Ops /\ tick = 0 /\ version = 0
        /\ task = [p \in Procs |-> <<>>] /\ began = [p \in Procs |-> 0] /\ seen = [p \in Procs |-> <<>>]
        /\ writes = [n \in Names |-> {InitialWrite}] /\ reads = [n \in Names |-> {}]

At(p, s) == pc' = [pc EXCEPT ![p] = s]
Begin(p, what) == /\ pc[p] = "idle" /\ left > 0 /\ left' = left - 1
                  /\ tick' = tick + 1 /\ began' = [began EXCEPT ![p] = tick + 1] /\ task' = [task EXCEPT ![p] = what]
                  /\ seen' = [seen EXCEPT ![p] = <<>>]
BeginReg(p) == /\ \E n \in Names : Begin(p, <<n, version + 1>>) /\ version' = version + 1 /\ At(p, "lock")
               /\ UNCHANGED <<reg, readers, waiting, writer, writes, reads>>
Ask(p) == /\ pc[p] = "lock" /\ p \notin waiting /\ writer \cup waiting = {} /\ waiting' = {p}
          /\ UNCHANGED <<reg, readers, writer, pc, left, tick, version, task, began, seen, writes, reads>>
Lock(p) == /\ pc[p] = "lock" /\ p \in waiting /\ readers = {} /\ writer = {} /\ writer' = {p} /\ waiting' = {} /\ At(p, "put")
           /\ UNCHANGED <<reg, readers, left, tick, version, task, began, seen, writes, reads>>
Put(p) == /\ pc[p] = "put" /\ reg' = [reg EXCEPT ![task[p][1]] = task[p][2]] /\ writer' = {} /\ At(p, "registered")
          /\ UNCHANGED <<readers, waiting, left, tick, version, task, began, seen, writes, reads>>
EndReg(p) == /\ pc[p] = "registered" /\ At(p, "idle") /\ tick' = tick + 1
             /\ writes' = [writes EXCEPT ![task[p][1]] = @ \cup {[v |-> task[p][2], b |-> began[p], e |-> tick + 1]}]
             /\ UNCHANGED <<reg, readers, waiting, writer, left, version, task, began, seen, reads>>

Docs == {<<1>>, <<2>>, <<2, 1>>}
BeginDec(p) == /\ \E d \in Docs : Begin(p, d) /\ At(p, "look") /\ UNCHANGED <<reg, readers, waiting, writer, version, writes, reads>>
RLock(p) == /\ pc[p] = "look" /\ task[p] # <<>> /\ writer \cup waiting = {} /\ readers' = readers \cup {p} /\ At(p, "read")
            /\ UNCHANGED <<reg, waiting, writer, left, tick, version, task, began, seen, writes, reads>>
Read(p) == /\ pc[p] = "read" /\ readers' = readers \ {p} /\ seen' = [seen EXCEPT ![p] = Append(@, <<Head(task[p]), reg[Head(task[p])]>>)]
           (* the handler of name 1 decodes name 2; without handler the payload is kept as it is *)
           /\ task' = [task EXCEPT ![p] = (IF Head(@) = 1 /\ reg[1] # 0 THEN <<2>> ELSE <<>>) \o Tail(@)] /\ At(p, "look")
           /\ UNCHANGED <<reg, waiting, writer, left, tick, version, began, writes, reads>>
EndDec(p) == /\ pc[p] = "look" /\ task[p] = <<>> /\ At(p, "idle") /\ tick' = tick + 1
             /\ reads' = [n \in Names |-> reads[n] \cup {[v |-> seen[p][i][2], b |-> began[p], e |-> tick + 1] : i \in {j \in DOMAIN seen[p] : seen[p][j][1] = n}}]
             /\ UNCHANGED <<reg, readers, waiting, writer, left, version, task, began, seen, writes>>
Finished == \A p \in Procs : pc[p] = "idle" /\ left = 0
Next == \/ \E p \in Registrars : BeginReg(p) \/ Ask(p) \/ Lock(p) \/ Put(p) \/ EndReg(p)
        \/ \E p \in Decoders : BeginDec(p) \/ RLock(p) \/ Read(p) \/ EndDec(p)
        \/ Finished /\ UNCHANGED vars        \* any other end is a deadlock
Spec == Init /\ [][Next]_vars

Exclusive == /\ (writer # {} => readers = {}) /\ Cardinality(writer) <= 1
(* C24 *)
Consistent == Finished => \A n \in Names : Linearizable(writes[n], reads[n]) /\ \A r \in reads[n] : Current(writes[n], r)
LastWins == Finished => \A n \in Names : \E w \in writes[n] : w.v = reg[n] /\ ~\E x \in writes[n] : w.e < x.b
Symmetric == Permutations(Registrars) \cup Permutations(Decoders)
Inv == Exclusive /\ Consistent /\ LastWins
=============================================================================
