---------------------------- MODULE Gen_Isolation ----------------------------
(* All histories of Depth steps on two documents; a third is used by the step "together",
   which does one thing to every document at the same time.                           *)
EXTENDS Isolation, Json

CONSTANT Depth

VARIABLES sc, org
Init == sc = <<>> /\ org = <<None, None, None>>

Choices(s, o) == {<<"decode", s, k>> : k \in Inputs} \cup {<<"again", s, k>> : k \in Variants} \cup {<<"build", s, "w1">>, <<"new", s, "n">>}
                 \cup {<<do, s, "">> : do \in {"encode", "read", "write", "scribble"}}
One(s) == \E c \in Choices(s, org) :
            /\ Allowed(c[1], org[s]) /\ (s = 2 => org[1] # None)     \* by symmetry the first document comes first
            /\ sc' = Append(sc, <<[do |-> c[1], slot |-> s, key |-> c[3]]>>)
            /\ org' = [org EXCEPT ![s] = NewOrigin(c[1], c[3], @)]
Together == \E cs \in {<<<<"decode", "a1">>, <<"decode", "a2">>, <<"build", "w1">>>>, <<<<"again", "a2">>, <<"decode", "a2">>, <<"decode", "b1">>>>,
                       <<<<"write", "">>, <<"write", "">>, <<"build", "w1">>>>, <<<<"encode", "">>, <<"scribble", "">>, <<"decode", "a1">>>>,
                       <<<<"read", "">>, <<"write", "">>, <<"new", "n">>>>} :
            /\ \A s \in 1..3 : Allowed(cs[s][1], org[s])
            /\ sc' = Append(sc, [s \in 1..3 |-> [do |-> cs[s][1], slot |-> s, key |-> cs[s][2]]])
            /\ org' = [s \in 1..3 |-> NewOrigin(cs[s][1], cs[s][2], org[s])]
Next == Len(sc) < Depth /\ (One(1) \/ One(2) \/ Together)
Emit == Len(sc) < Depth \/ PrintT("@S " \o ToJson(sc))
=============================================================================
