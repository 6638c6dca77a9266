------------------------------ MODULE MC_Store -------------------------------
(* Design: a document's buffers are stored one after the other - in the binary chunk, in
   the text as data URIs, in resources - and loaded back.  Every buffer comes back in its
   own place, and no other resource is touched.  The documents are also the scenarios.   *)
EXTENDS Resources, Json

CONSTANTS MaxBufs, Kinds

VARIABLES kinds, full, binary, hasFS,   \* the document
          i, bin, texts, files, phase, loaded
vars == <<kinds, full, binary, hasFS, i, bin, texts, files, phase, loaded>>

File(k) == <<102, 48 + k>>                               \* "f1", "f2", ...
Http == <<104, 116, 116, 112, 58, 47, 47, 104, 47, 120>> \* http://h/x
Data(k) == IF full[k] THEN [j \in 1..(k + 1) |-> 10 * k + j] ELSE <<>>
UriOf(k) == CASE kinds[k] = "none" -> <<>> [] kinds[k] = "embedded" -> DataURI(OctetPrefix, <<9>>)
              [] kinds[k] = "file" -> File(k) [] OTHER -> Http
Bufs == [k \in 1..Len(kinds) |-> [uri |-> UriOf(k), data |-> Data(k), blen |-> k + 1]]
(* Resources that exist before: every file of the document, and another. *)
Before == {[name |-> File(k), data |-> <<77, k, 77, k, 77, k>>] : k \in 1..MaxBufs} \cup {[name |-> <<120>>, data |-> <<1>>]}

Init == /\ \E n \in 0..MaxBufs : kinds \in [1..n -> Kinds] /\ full \in [1..n -> BOOLEAN]
        /\ binary \in BOOLEAN /\ hasFS \in BOOLEAN
        /\ i = 1 /\ bin = <<>> /\ texts = <<>> /\ files = Before /\ phase = "store" /\ loaded = <<>>
DU == UNCHANGED <<kinds, full, binary, hasFS>>
Put(name, data) == {f \in files : f.name # name} \cup {[name |-> name, data |-> data]}
Store == /\ phase = "store" /\ i <= Len(kinds)
         /\ LET d == Dest(Bufs, i, binary) b == Bufs[i] IN
              /\ bin' = IF d = "bin" THEN Cut(b.data \o Zeros(b.blen), b.blen) ELSE bin
              /\ files' = IF d = "file" /\ hasFS THEN Put(Name(b.uri), b.data) ELSE files
              /\ texts' = Append(texts, IF d = "embed" THEN DataURI(OctetPrefix, b.data) ELSE b.uri)
         /\ i' = i + 1 /\ UNCHANGED <<phase, loaded>> /\ DU
TurnAround == phase = "store" /\ i > Len(kinds) /\ phase' = "load" /\ i' = 1 /\ UNCHANGED <<bin, texts, files, loaded>> /\ DU
Content(name) == (CHOOSE f \in files : f.name = name).data
Load == /\ phase = "load" /\ i <= Len(kinds)
        /\ LET u == texts[i] n == Bufs[i].blen IN
           \/ binary /\ i = 1 /\ u = <<>> /\ loaded' = Append(loaded, bin)
           \/ ~(binary /\ i = 1) /\ u = <<>> /\ loaded' = Append(loaded, <<"error">>)
           \/ Embedded(u) /\ loaded' = Append(loaded, Cut(B64Decode(Payload(u, OctetPrefix)), n))
           \/ u # <<>> /\ ~Embedded(u) /\ IsURL(u) /\ loaded' = Append(loaded, <<>>)
           \/ u # <<>> /\ ~Embedded(u) /\ ~IsURL(u) /\ loaded' = Append(loaded, IF hasFS THEN Cut(Content(Name(u)), n) ELSE <<>>)
        /\ i' = i + 1 /\ UNCHANGED <<bin, texts, files, phase>> /\ DU
Next == Store \/ TurnAround \/ Load
Spec == Init /\ [][Next]_vars

InPlace == phase = "load" => \A k \in 1..(i - 1) :
   LET d == Dest(Bufs, k, binary) IN
   /\ d \in {"bin", "embed"} /\ full[k] => loaded[k] = Data(k)
   /\ d = "file" /\ hasFS => loaded[k] = Data(k)
   /\ d = "bin" => Len(loaded[k]) = Bufs[k].blen
   /\ d = "elsewhere" /\ hasFS => loaded[k] = Cut(<<77, k, 77, k, 77, k>>, k + 1)
OthersUntouched == \A f \in Before :
   (\A k \in 1..Len(kinds) : Dest(Bufs, k, binary) = "file" => Name(Bufs[k].uri) # f.name) => f \in files
NothingNew == \A f \in files : \E g \in Before : g.name = f.name
Inv == InPlace /\ OthersUntouched /\ NothingNew
Emit == phase # "store" \/ i # 1 \/
   PrintT("@S " \o ToJson([kinds |-> kinds, full |-> full, binary |-> binary, fs |-> hasFS]))
=============================================================================
