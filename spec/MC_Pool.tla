------------------------------- MODULE MC_Pool -------------------------------
(* Design: concurrent readers that share pools of memory.  A typed read takes a raw block
   from the pool, decodes into it, for a sparse accessor takes two more, and finally
   converts into fresh memory or into memory its caller hands in.  Blocks go back to the
   pool only when nothing refers to them any more, so that no delivered result changes
   unless its own memory was handed in again, whatever the interleaving and the contents
   that pooled and handed-in memory had.                                              *)
EXTENDS Base

CONSTANTS Readers, Blocks, MaxReads

VARIABLES pool,      \* blocks in the pool
          content,   \* which read a block holds the data of (0: dirt)
          used,      \* blocks that exist
          pc, held,  \* per reader: where it is, the blocks it holds by role
          id,        \* per reader: its current read
          count,     \* reads begun
          results,   \* delivered: [block, read, reader]
          bad
vars == <<pool, content, used, pc, held, id, count, results, bad>>

None == 0
NoHeld == [raw |-> None, idx |-> None, vals |-> None, scratch |-> None]
Init == /\ pool = {} /\ content = [b \in Blocks |-> 0] /\ used = {} /\ pc = [r \in Readers |-> "idle"]
        /\ held = [r \in Readers |-> NoHeld] /\ id = [r \in Readers |-> 0] /\ count = 0 /\ results = {} /\ bad = FALSE

Fresh == Blocks \ used
Goto(r, p) == pc' = [pc EXCEPT ![r] = p]
(* A block from the pool, or a new one when the pool is empty. *)
Get(b) == /\ IF pool # {} THEN b \in pool ELSE b \in Fresh /\ \A c \in Fresh : b <= c
          /\ pool' = pool \ {b} /\ used' = used \cup {b}

Begin(r) == /\ pc[r] = "idle" /\ count < MaxReads
            /\ \E s \in {None} \cup {x.block : x \in {y \in results : y.reader = r}} :
                 /\ results' = {x \in results : x.block # s}     \* handed in: no longer a result
                 /\ \E b \in Blocks : Get(b) /\ held' = [held EXCEPT ![r] = [NoHeld EXCEPT !.raw = b, !.scratch = s]]
            /\ count' = count + 1 /\ id' = [id EXCEPT ![r] = count + 1] /\ Goto(r, "decode") /\ UNCHANGED <<content, bad>>
Decode(r) == /\ pc[r] = "decode" /\ content' = [content EXCEPT ![held[r].raw] = id[r]]
             /\ (Goto(r, "indices") \/ Goto(r, "convert")) /\ UNCHANGED <<pool, used, held, id, count, results, bad>>
TakeIdx(r) == /\ pc[r] = "indices" /\ \E b \in Blocks : Get(b) /\ held' = [held EXCEPT ![r].idx = b] /\ content' = [content EXCEPT ![b] = id[r]]
              /\ Goto(r, "values") /\ UNCHANGED <<id, count, results, bad>>
TakeVals(r) == /\ pc[r] = "values" /\ \E b \in Blocks : Get(b) /\ held' = [held EXCEPT ![r].vals = b] /\ content' = [content EXCEPT ![b] = id[r]]
               /\ Goto(r, "overlay") /\ UNCHANGED <<id, count, results, bad>>
Overlay(r) == /\ pc[r] = "overlay" /\ bad' = (bad \/ \E f \in {"raw", "idx", "vals"} : content[held[r][f]] # id[r])
              /\ Goto(r, "return") /\ UNCHANGED <<pool, content, used, held, id, count, results>>
Return(r) == /\ pc[r] = "return" /\ pool' = pool \cup {held[r].idx, held[r].vals}
             /\ held' = [held EXCEPT ![r].idx = None, ![r].vals = None]
             /\ Goto(r, "convert") /\ UNCHANGED <<content, used, id, count, results, bad>>
Convert(r) == /\ pc[r] = "convert" /\ bad' = (bad \/ content[held[r].raw] # id[r])
              /\ \E d \in Blocks :
                   /\ IF held[r].scratch # None THEN d = held[r].scratch /\ used' = used
                      ELSE d \in Fresh /\ (\A c \in Fresh : d <= c) /\ used' = used \cup {d}
                   /\ content' = [content EXCEPT ![d] = content[held[r].raw]]
                   /\ held' = [held EXCEPT ![r].scratch = d]
              /\ Goto(r, "release") /\ UNCHANGED <<pool, id, count, results>>
Release(r) == /\ pc[r] = "release" /\ pool' = pool \cup {held[r].raw}
              /\ results' = results \cup {[block |-> held[r].scratch, read |-> id[r], reader |-> r]}
              /\ held' = [held EXCEPT ![r] = NoHeld] /\ Goto(r, "idle") /\ UNCHANGED <<content, used, id, count, bad>>
Next == \E r \in Readers : \/ Begin(r) \/ Decode(r) \/ TakeIdx(r) \/ TakeVals(r) \/ Overlay(r) \/ Return(r) \/ Convert(r) \/ Release(r)
Spec == Init /\ [][Next]_vars

Held(r) == {held[r][f] : f \in {"raw", "idx", "vals", "scratch"}} \ {None}
Inv == /\ ~bad
       /\ \A x \in results : content[x.block] = x.read
       /\ \A x \in results : x.block \notin pool /\ \A r \in Readers : x.block \notin Held(r)
       /\ \A r, q \in Readers : r # q => Held(r) \cap Held(q) = {}
       /\ \A r \in Readers : Held(r) \cap pool = {}
=============================================================================
