---------------------------- MODULE MC_Isolation -----------------------------
(* Design: documents in one heap.  Two processes decode into slots, taking a cell for what
   the input says and one for what it leaves to a default, which the package holds in a
   cell of its own; owners overwrite their documents; the memory of documents that are
   gone, and of inputs, is used again.  As long as every cell of a document is its own, it
   means what it was made of, whatever else happens.  Policy "own" copies; the others
   share a default, the input, or a cell of the former document, and are here to show that
   the invariant tells them apart.                                                     *)
EXTENDS Isolation

CONSTANTS Policies, Procs, Slots, Cells, MaxOps

VARIABLES policy, content, doc, want, pkg, pc, ops
vars == <<policy, content, doc, want, pkg, pc, ops>>

Nil == 0
Dirt == "dirt"
Default == "default"
NoDoc == <<>>
Idle == [at |-> "idle", slot |-> 0, key |-> "", in |-> Nil, cells |-> <<>>]
Init == /\ policy \in Policies
        /\ pkg = 1 /\ content = [c \in Cells |-> IF c = 1 THEN Default ELSE Dirt]
        /\ doc = [s \in Slots |-> NoDoc] /\ want = [s \in Slots |-> <<>>]
        /\ pc = [p \in Procs |-> Idle] /\ ops = 0

Taken == {pkg} \cup UNION {Range(doc[s]) : s \in Slots} \cup UNION {Range(pc[p].cells) \cup {pc[p].in} : p \in Procs}
Fresh == Cells \ Taken
Least == CHOOSE c \in Fresh : \A d \in Fresh : c <= d
Busy(s) == \E p \in Procs : pc[p].at # "idle" /\ pc[p].slot = s

Begin(p) == /\ pc[p].at = "idle" /\ ops < MaxOps /\ Fresh # {}
            /\ \E s \in Slots, k \in Inputs : /\ ~Busy(s)
                 /\ pc' = [pc EXCEPT ![p] = [at |-> "said", slot |-> s, key |-> k, in |-> Least, cells |-> <<>>]]
                 /\ content' = [content EXCEPT ![Least] = k]
            /\ ops' = ops + 1 /\ UNCHANGED <<policy, doc, want, pkg>>
Take(p, next, shared, value) ==
   IF shared # Nil THEN /\ pc' = [pc EXCEPT ![p].cells = Append(@, shared), ![p].at = next]
                        /\ content' = [content EXCEPT ![shared] = value]
   ELSE /\ Fresh # {} /\ pc' = [pc EXCEPT ![p].cells = Append(@, Least), ![p].at = next]
        /\ content' = [content EXCEPT ![Least] = value]
Said(p) == /\ pc[p].at = "said"
           /\ Take(p, "unsaid", CASE policy = "input" -> pc[p].in
                                  [] policy = "again" /\ \E s \in Slots \ {pc[p].slot} : doc[s] # NoDoc ->
                                       doc[CHOOSE s \in Slots \ {pc[p].slot} : doc[s] # NoDoc][1]
                                  [] OTHER -> Nil, content[pc[p].in])
           /\ UNCHANGED <<policy, doc, want, pkg, ops>>
Unsaid(p) == /\ pc[p].at = "unsaid" /\ Take(p, "deliver", IF policy = "default" THEN pkg ELSE Nil, content[pkg])
             /\ UNCHANGED <<policy, doc, want, pkg, ops>>
Deliver(p) == /\ pc[p].at = "deliver"
              /\ doc' = [doc EXCEPT ![pc[p].slot] = pc[p].cells]
              /\ want' = [want EXCEPT ![pc[p].slot] = <<pc[p].key, Default>>]
              /\ content' = IF pc[p].in \in Range(pc[p].cells) THEN [content EXCEPT ![pc[p].in] = Dirt] ELSE content \* the input is its owner's again
              /\ pc' = [pc EXCEPT ![p] = Idle] /\ UNCHANGED <<policy, pkg, ops>>
Scribble(s) == /\ doc[s] # NoDoc /\ ~Busy(s) /\ ops < MaxOps /\ ops' = ops + 1
               /\ content' = [c \in Cells |-> IF c \in Range(doc[s]) THEN Dirt ELSE content[c]]
               /\ want' = [want EXCEPT ![s] = <<Dirt, Dirt>>] /\ UNCHANGED <<policy, doc, pkg, pc>>
Next == (\E p \in Procs : Begin(p) \/ Said(p) \/ Unsaid(p) \/ Deliver(p)) \/ (\E s \in Slots : Scribble(s))
Spec == Init /\ [][Next]_vars

Means == \A s \in Slots : doc[s] # NoDoc /\ ~Busy(s) => [i \in DOMAIN doc[s] |-> content[doc[s][i]]] = want[s]
Disjoint == \A s, t \in Slots : s # t /\ ~Busy(s) /\ ~Busy(t) => Range(doc[s]) \cap Range(doc[t]) = {}
Inv == policy = "own" => Means /\ Disjoint /\ content[pkg] = Default
(* Violated on purpose, one by one (tools/negatives.sh): each way of sharing is noticed. *)
DefaultUnnoticed == policy = "default" => Means
InputUnnoticed == policy = "input" => Means
AgainUnnoticed == policy = "again" => Means
=============================================================================
