----------------------------- MODULE T_Resources -----------------------------
(* Judges recorded accesses to resources against Resources. *)
EXTENDS Resources, TraceRun

VARIABLES l, st
Init == l = 1 /\ st = [bufs |-> <<>>, binary |-> FALSE, fs |-> FALSE, files |-> <<>>]

(* ------------------------------------------------------------------ C10 *)
Outside(e) == \E i \in DOMAIN e.uris : LeadsOutside(e.uris[i])
Contained(e) == \A i \in DOMAIN e.names : Local(e.names[i])
NoURL(e) == \A i \in DOMAIN e.names : ~IsURL(e.names[i])
JudgeUri(e) ==
   Need(e.out \in {"ok", "err"}, "C10 access by URI panics")
   \cup Need(Contained(e), "C10 a name outside the directory is accessed")
   \cup Need(NoURL(e), "C10 an absolute URL is used as a file name")
   \cup Need(Outside(e) => e.out = "err", "C10 a URI that leads outside is not rejected")
   \cup Need(Outside(e) /\ Len(e.uris) = 1 => e.names = <<>>, "C10 something is accessed for a URI that leads outside")
   \cup Need(\A i \in DOMAIN e.uris : IsURL(e.uris[i]) => e.uris[i] \notin Range(e.names), "C10 an absolute URL is accessed")
   \cup Need((\A i \in DOMAIN e.uris : IsURL(e.uris[i])) => e.names = <<>>, "C10 something is accessed for an absolute URL")
JudgeReal(e) ==
   JudgeUri(e) \cup Need(e.outside = "same", "C10 a file outside the directory is read or written")

(* ------------------------------------------------------------------ C09 *)
Bufs(e) == e.bufs
D(e, i) == Dest(e.bufs, i, e.binary)
Indices(e) == 1..Len(e.bufs)
(* the resources afterwards; later buffers replace earlier ones of the same name *)
RECURSIVE Put(_, _, _)
Put(e, i, fs) ==
   IF i > Len(e.bufs) THEN fs
   ELSE Put(e, i + 1, IF D(e, i) = "file" /\ e.fs
        THEN {f \in fs : ~SameName(f.name, Name(e.bufs[i].uri))} \cup {[name |-> Name(e.bufs[i].uri), data |-> e.bufs[i].data]} ELSE fs)
Norm(fs) == {[name |-> Elements(f.name), data |-> f.data] : f \in fs}
ExpectedNames(e, ds) == {Elements(Name(e.bufs[i].uri)) : i \in {j \in Indices(e) : D(e, j) \in ds}}
JudgeStore(e) ==
   IF e.out # "ok" THEN {"C09 storing a document with relative resources fails"}
   ELSE Need(Len(e.texts) = Len(e.bufs), "C09 the text has another number of buffers")
   \cup (IF Len(e.texts) # Len(e.bufs) THEN {} ELSE
      Need(\A i \in Indices(e) : D(e, i) = "embed" => e.texts[i] = DataURI(OctetPrefix, e.bufs[i].data),
           "C09 a buffer is not embedded with its data")
      \cup Need(\A i \in Indices(e) : D(e, i) # "embed" => e.texts[i] = e.bufs[i].uri, "C09 the URI of a buffer is not written"))
   \cup Need(e.hasBin = (\E i \in Indices(e) : D(e, i) = "bin"), "C09 the binary chunk is missing or superfluous")
   \cup Need(\A i \in Indices(e) : D(e, i) = "bin" => Cut(e.bin, e.bufs[i].blen) = Cut(e.bufs[i].data \o Zeros(e.bufs[i].blen), e.bufs[i].blen),
             "C09 the binary chunk does not hold the first buffer")
   \cup Need(Norm(Range(e.files)) = Norm(Put(e, 1, Range(e.before))), "C09 the resources are not those of the relative buffers")
   \cup Need(e.real \/ {Elements(n) : n \in Range(e.created)} = (IF e.fs THEN ExpectedNames(e, {"file"}) ELSE {}), "C09 another resource is created, or one is not")

StoreStep(e) == [bufs |-> e.bufs, binary |-> e.binary, fs |-> e.fs, files |-> e.files]
Loadable(s) == \A i \in DOMAIN s.bufs : LET d == Dest(s.bufs, i, s.binary) b == s.bufs[i] IN
   /\ d # "nowhere" /\ b.blen > 0
   /\ (d \in {"file", "elsewhere"} /\ s.fs => \E f \in Range(s.files) : SameName(f.name, Name(b.uri)))
Content(s, uri) == (CHOOSE f \in Range(s.files) : SameName(f.name, Name(uri))).data
JudgeLoad(e) ==
   IF ~Loadable(st) THEN Need(e.out # "panic", "C09 loading panics")
   ELSE IF e.out # "ok" THEN {"C09 a stored document cannot be loaded"}
   ELSE IF Len(e.bufs) # Len(st.bufs) THEN {"C09 the loaded document has another number of buffers"}
   ELSE UNION {
      LET d == Dest(st.bufs, i, st.binary) b == st.bufs[i] g == e.bufs[i].data IN
      CASE d = "bin" -> Need(g = Cut(b.data \o Zeros(b.blen), b.blen), "C09 the buffer of the binary chunk comes back changed")
        [] d = "embed" -> Need(Len(b.data) < b.blen \/ g = Cut(b.data, b.blen), "C09 an embedded buffer comes back changed")
        [] d = "url" -> Need(g = <<>>, "C09 a URL buffer has data")
        [] d \in {"file", "elsewhere"} /\ ~st.fs -> Need(g = <<>>, "C09 data without a file system")
        [] d \in {"file", "elsewhere"} -> 
              LET c == Content(st, b.uri) IN Need(Len(c) < b.blen \/ g = Cut(c, b.blen), "C09 an external buffer comes back changed")
        [] OTHER -> {}
      \cup Need(e.bufs[i].blen = b.blen, "C09 the declared length comes back changed")
      : i \in DOMAIN st.bufs}
   \cup Need(e.created = <<>>, "C09 loading creates a resource")
   \cup Need({Elements(n) : n \in Range(e.opened)} \subseteq
             {Elements(Name(st.bufs[i].uri)) : i \in {j \in DOMAIN st.bufs : Dest(st.bufs, j, st.binary) \in {"file", "elsewhere"}}},
             "C09 loading opens another resource")

(* ------------------------------------------------------------------ C26 *)
JudgeEmbed(e) ==
   Need(e.out = "ok" /\ e.uri = DataURI(OctetPrefix, e.data), "C26 embedding gives another data URI")
   \cup Need(e.embedded, "C26 an embedded buffer is not recognised")
   \cup Need(e.after = e.data, "C26 embedding changes the data")
JudgeThrough(e) == Need(e.out = "ok" /\ e.got = e.data, "C26 embedded bytes do not come back")
ImagePrefix(uri) == IF HasPrefix(uri, PngPrefix) THEN PngPrefix ELSE JpegPrefix
JudgeImage(e) ==
   Need(e.out \in {"ok", "err"}, "C26 asking for image data panics")
   \cup Need(e.embedded = EmbeddedImage(e.uri), "C26 an image is taken for embedded, or is not")
   \cup Need(e.after = e.uri, "C26 asking for image data changes the image")
   \cup (IF ~EmbeddedImage(e.uri) THEN Need(e.data = <<>>, "C26 data from a URI that is no image data URI")
         ELSE LET p == ImagePrefix(e.uri) pl == Payload(e.uri, p) IN
         IF ~WellFormedData(e.uri, p) THEN Need(e.out = "err", "C26 malformed image data URI is not reported")
         ELSE IF ~B64Valid(NoBreaks(pl)) THEN Need(e.out = "err", "C26 malformed image data is not reported")
         ELSE IF Canonical(pl) THEN Need(e.out = "ok" /\ e.data = B64Decode(pl), "C26 image data is not the encoded bytes")
         ELSE Need(e.out = "err" \/ e.data = B64Decode(NoBreaks(pl)), "C26 partial image data"))
(* Schemes are case-insensitive, and backslashes may stand for slashes: such URIs may be read either way. *)
Loose(s) == [i \in DOMAIN s |-> IF s[i] = Backslash THEN Slash ELSE IF i <= 4 /\ s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
JudgeBuffer(e) ==
   Need(e.out \in {"ok", "err"}, "C26 loading a data URI panics")
   \cup Need(e.embedded = Embedded(e.uri), "C26 a buffer is taken for embedded, or is not")
   \cup (IF ~Embedded(e.uri) THEN Need(Embedded(Loose(e.uri)) \/ e.out = "err" \/ e.names # <<>> \/ e.data = <<>>, "C26 data from a URI that is no data URI")
         ELSE LET pl == Payload(e.uri, OctetPrefix) IN
         Need(e.names = <<>>, "C26 a data URI is opened as a resource")
         \cup (IF ~WellFormedData(e.uri, OctetPrefix) THEN Need(e.out = "err", "C26 malformed data URI is not reported")
         ELSE IF ~B64Valid(NoBreaks(pl)) THEN Need(e.out = "err", "C26 malformed embedded data is not reported")
         ELSE IF Canonical(pl) THEN
              IF Len(B64Decode(pl)) >= e.blen THEN Need(e.out = "ok" /\ e.data = Cut(B64Decode(pl), e.blen), "C26 embedded data is not the encoded bytes")
              ELSE Need(e.out = "err" \/ e.data = B64Decode(pl), "C26 embedded data is not the encoded bytes")
         ELSE Need(e.out = "err" \/ e.data = Cut(B64Decode(NoBreaks(pl)), e.blen), "C26 partial embedded data")))

Judge(e) ==
   CASE e.op \in {"uriread", "uriwrite"} -> JudgeUri(e)
     [] e.op \in {"realread", "realwrite"} -> JudgeReal(e)
     [] e.op = "store" -> JudgeStore(e)
     [] e.op = "load" -> JudgeLoad(e)
     [] e.op = "embed" -> JudgeEmbed(e)
     [] e.op = "through" -> JudgeThrough(e)
     [] e.op = "image" -> JudgeImage(e)
     [] e.op = "buffer" -> JudgeBuffer(e)

Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ Done(l)
        /\ st' = IF Trace[l].op = "store" THEN StoreStep(Trace[l]) ELSE st
        /\ l' = l + 1
=============================================================================
