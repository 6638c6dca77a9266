------------------------------ MODULE Gen_Access ------------------------------
(* Accessors for the real readers: well-formed ones of every type, placement and kind of
   sparse part, and damaged ones: every one or two damages of a list, on several bases.
   Damages name a field and a value: "=k" that number, "+k" that much more, max, min.     *)
EXTENDS Layout, Json

CONSTANTS Want, Ns, Pairs, Bases

VARIABLE sc

Plain == {[kind |-> "good", c |-> c, t |-> t, n |-> n, base |-> b, off |-> o, voff |-> v, over |-> s, ic |-> "none", sn |-> 0] :
             c \in CTypes, t \in TTypes, n \in Ns, b \in {TRUE}, o \in {0, 4}, v \in {0, 3}, s \in {-1, 0, 4}}
Sparse == {[kind |-> "good", c |-> c, t |-> t, n |-> n, base |-> b, off |-> o, voff |-> o + 1, over |-> o - 1, ic |-> i, sn |-> k] :
             c \in CTypes, t \in TTypes, n \in Ns, b \in BOOLEAN, o \in {0, 4}, i \in {"ubyte", "ushort", "uint"}, k \in {1, 3}}
NoView == {[kind |-> "good", c |-> c, t |-> t, n |-> n, base |-> FALSE, off |-> 0, voff |-> 0, over |-> -1, ic |-> "none", sn |-> 0] :
             c \in CTypes, t \in TTypes, n \in Ns}

D(f, vs) == {[f |-> f, v |-> v] : v \in vs}
Ends == {"max", "min", "=-1"}
Damage ==
   D("nil", {"=1"})
   \cup D("bv", Ends \cup {"=3", "=99"}) \cup D("off", Ends \cup {"+1", "+4", "+1000", "size", "past"}) \cup D("n", Ends \cup {"+1", "=0", "=100000", "=1000000000"})
   \cup D("c", {"bad"}) \cup D("t", {"bad"})
   \cup D("v.nil", {"=1"}) \cup D("v.b", Ends \cup {"=2"}) \cup D("v.off", Ends \cup {"+1", "+1000", "=0"}) \cup D("v.len", Ends \cup {"+1", "--1", "=0", "=1000000000"})
   \cup D("v.stride", Ends \cup {"=1", "+1", "+4", "=1000000000"})
   \cup D("b.nil", {"=1"}) \cup D("b.cut", {"=1", "=1000"})
   \cup D("sn", Ends \cup {"+1", "=0", "=100000"}) \cup D("ib", Ends \cup {"=3", "=0"}) \cup D("ioff", Ends \cup {"+1", "+1000", "past"}) \cup D("ic", {"byte", "short", "float", "bad"})
   \cup D("vb", Ends \cup {"=3", "=0"}) \cup D("voff", Ends \cup {"+1", "+1000", "past"}) \cup D("index", {"=n", "=n-1", "max", "=-1"})
   \cup D("iv.len", {"--1", "=0", "max"}) \cup D("iv.nil", {"=1"}) \cup D("iv.stride", {"=1", "=4", "=-1", "max"}) \cup D("vv.len", {"--1", "=0", "max"}) \cup D("vv.stride", {"=-1", "+4", "max"})
Bad == {[kind |-> "bad", base |-> b, d |-> s] : b \in Bases, s \in {{x, y} : x \in Damage, y \in Damage}}
Bad1 == {[kind |-> "bad", base |-> b, d |-> {x}] : b \in Bases, x \in Damage}

Init == sc \in IF Want = "good" THEN Plain \cup Sparse \cup NoView ELSE IF Pairs THEN Bad ELSE Bad1
Next == FALSE /\ sc' = sc
Emit == PrintT("@S " \o ToJson(sc))
=============================================================================
