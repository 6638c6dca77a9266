------------------------------- MODULE MC_Uri --------------------------------
(* Design: a file system walk.  A URI made of path-relevant tokens is turned into a name; if
   the name is accepted it is walked element by element.  The walk never leaves the root,
   and a URI that is refused would have left it.  The URIs are also the scenarios for the
   real code.                                                                          *)
EXTENDS Resources, Json

CONSTANTS MaxTokens
Tokens == [up |-> <<46, 46>>, dot |-> <<46>>, slash |-> <<47>>, back |-> <<92>>, a |-> <<97>>,
           encdot |-> <<37, 50, 101>>, encslash |-> <<37, 50, 70>>, encback |-> <<37, 53, 99>>, bad |-> <<37, 122>>, encpct |-> <<37, 50, 53>>,
           scheme |-> <<104, 116, 116, 112, 58, 47, 47>>, colon |-> <<58>>, space |-> <<32>>, query |-> <<63>>]

VARIABLES toks, name, pos, depth, state
vars == <<toks, name, pos, depth, state>>

RECURSIVE Cat(_)
Cat(ts) == IF ts = <<>> THEN <<>> ELSE Tokens[Head(ts)] \o Cat(Tail(ts))
Uri == Cat(toks)

Init == /\ toks \in UNION {[1..n -> DOMAIN Tokens] : n \in 1..MaxTokens}
        /\ name = <<>> /\ pos = 0 /\ depth = 0 /\ state = "uri"
Resolve == /\ state = "uri"
           /\ IF Debatable(Uri) \/ IsURL(Uri) THEN state' = "unspecified" /\ name' = name
              ELSE IF LeadsOutside(Uri) THEN state' = "refused" /\ name' = Elements(Name(Uri))
              ELSE state' = "walking" /\ name' = Elements(Name(Uri))
           /\ UNCHANGED <<toks, pos, depth>>
(* A refused name is walked too, to show that it was refused for a reason. *)
Walk == /\ state \in {"walking", "refused"} /\ pos < Len(name)
        /\ pos' = pos + 1 /\ depth' = (IF name[pos + 1] = Up THEN depth - 1 ELSE depth + 1)
        /\ state' = (IF state = "refused" /\ depth' < 0 THEN "outside" ELSE state)
        /\ UNCHANGED <<toks, name>>
Next == Resolve \/ Walk
Spec == Init /\ [][Next]_vars

Contained == state = "walking" => depth >= 0
(* Refused names: absolute, empty, or left the root during the walk. *)
Justified == state = "refused" /\ pos = Len(name) => Name(Uri)[1] = Slash
Emit == state # "uri" \/ PrintT("@S " \o ToJson([uri |-> Uri]))
Inv == Contained /\ Justified
=============================================================================
