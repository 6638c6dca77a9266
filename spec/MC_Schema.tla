------------------------------ MODULE MC_Schema ------------------------------
(* Objects that are written and read, over and over, by the intended writer and reader:
   their meaning never changes, reading delivers exactly what the text says, and
   the text does not change from the second writing on.                            *)
EXTENDS SchemaGen
CONSTANTS Wide, Rounds
VARIABLES vt,      \* type of the object
          vform,   \* "mem" | "text": how it is represented at the moment
          vobj,    \* the object
          vfrom,   \* the other representation, that vobj was written or read from
          vmean,   \* its meaning from the beginning
          vtext,   \* the text that was written first, <<>> before
          vn       \* writings and readings
vars == <<vt, vform, vobj, vfrom, vmean, vtext, vn>>

GMean(t, x) == GObj(t, x, FALSE)
JMean(t, x) == JObj(t, x, FALSE)
Init == /\ vt \in Types /\ vform = "none" /\ vobj = Nil /\ vfrom = Nil /\ vmean = Nil /\ vtext = <<>> /\ vn = 0
Start == /\ vform = "none"
         /\ \/ \E a \in Assignments(vt, Wide) : \E x \in {Mem(vt, a)} : vform' = "mem" /\ vobj' = x /\ vmean' = GMean(vt, x)
            \/ \E a \in Assignments(vt, Wide) : \E x \in {Text(vt, a)} : vform' = "text" /\ vobj' = x /\ vmean' = JMean(vt, x)
            \/ /\ vt \in ExtPoints
               /\ \E a \in Additions : \E x \in {Add(Text(vt, <<>>), a)} : vform' = "text" /\ vobj' = x /\ vmean' = JMean(vt, x)
         /\ vn' = 0 /\ UNCHANGED <<vt, vfrom, vtext>>
Write == /\ vform = "mem" /\ vn < Rounds
         /\ \E x \in {WriteObj(vt, vobj)} : vobj' = x /\ vtext' = IF vtext = <<>> THEN <<x>> ELSE vtext
         /\ vform' = "text" /\ vfrom' = vobj /\ vn' = vn + 1 /\ UNCHANGED <<vt, vmean>>
Read == /\ vform = "text" /\ vn < Rounds
        /\ vobj' = ReadObj(vt, vobj)
        /\ vform' = "mem" /\ vfrom' = vobj /\ vn' = vn + 1 /\ UNCHANGED <<vt, vmean, vtext>>
Next == Start \/ Write \/ Read
Spec == Init /\ [][Next]_vars

MeaningKept == /\ vform = "mem" => GMean(vt, vobj) = vmean
               /\ vform = "text" => JMean(vt, vobj) = vmean
ReadsExactly == (vform = "mem" /\ vn > 0) => GObj(vt, vobj, TRUE) = JObj(vt, vfrom, TRUE)
TextSettles == (vform = "text" /\ vn > 0) => (vtext = <<vobj>>)
NoDefaults == (vform = "text" /\ vn > 0) =>
   \A i \in DOMAIN Schema[vt] : \A p \in {Schema[vt][i]} :
      (p.def /\ ~p.req /\ p.kind # "enum") => JGet(vobj, p.key) # p.d
SpellsOut == (vform = "text" /\ vn > 0) => Omitted(vt, vobj) = {}
(* Every enumeration: one code for a value, one value for a code. *)
ASSUME \A en \in Enums : \A i, k \in DOMAIN Codes[en] : i # k => Codes[en][i][1] # Codes[en][k][1] /\ Codes[en][i][2] # Codes[en][k][2]
ASSUME \A en \in Enums : \A y \in Symbols(en) : SymbolOf(en, CodeOf(en, y)) = E(y)
(* Every object of the format can be placed in a document. *)
ASSUME DOMAIN Place = Types \ {"Document"}
=============================================================================
