------------------------------ MODULE T_Schema ------------------------------
(* Judges recorded decodings and encodings of documents, enumerations and default helpers
   by the meaning that Schema gives to text and to memory.                              *)
EXTENDS Schema, TraceRun
L == INSTANCE Layout

VARIABLES pos
Init == pos = 1

Reasons(diff, what) == {d[1] \o " " \o what \o " of " \o d[2] : d \in diff}

JudgeWritten(e, m) ==      \* m: the meaning of the document in memory
   IF e.out2 # "ok" THEN {"C01 encoding a legal document fails", "C22 encoding a legal document fails", "C23 encoding a legal document fails"}
   ELSE IF Is(e.j2, "bad") THEN {"C01 what was encoded is not JSON"}
   ELSE Reasons(UNION {DiffObj("Document", x, y) : x \in {m}, y \in {JDoc(e.j2, FALSE)}}, "writing")
        \cup {"C01 " \o k \o " is written as null" : k \in {e.nulls[i] : i \in DOMAIN e.nulls}}
        \cup {"C23 " \o k \o " is written as null" : k \in {e.xnulls[i] : i \in DOMAIN e.xnulls}}
        \cup {"C01 required " \o d[2] \o " is not written" : d \in UNION {Omitted("Document", y) : y \in {e.j2}}}
        \cup (IF e.out3 # "ok" THEN {"C01 what was encoded is not decoded", "C22 what was encoded is not decoded", "C23 what was encoded is not decoded"}
              ELSE Need(e.data = e.data2, "C01 buffer data changes")
                   \cup Reasons(UNION {DiffObj("Document", x, y) : x \in {m}, y \in {GDoc(e.g2, FALSE)}}, "round trip"))
JudgeRead(e) ==
   IF e.out # "ok" THEN {"C01 a legal document is not decoded", "C02 a legal document is not decoded", "C03 a legal document is not decoded"}
                        \cup (IF e.ext THEN {"C22 a legal document is not decoded", "C23 a legal document is not decoded"} ELSE {})
   ELSE Reasons(UNION {DiffObj("Document", x, y) : x \in {JDoc(e.j, TRUE)}, y \in {GDoc(e.g, TRUE)}}, "reading")
        \cup UNION {JudgeWritten(e, m) : m \in {GDoc(e.g, FALSE)}}
        \cup (IF e.out2 = "ok" THEN Reasons(UNION {DiffObj("Document", x, y) : x \in {JDoc(e.j, FALSE)}, y \in {JDoc(e.j2, FALSE)}}, "rewriting") ELSE {})

JudgeEnum(e) ==
   Need(e.name = e.sym, "C03 name of " \o e.en \o " " \o e.sym)
   \cup (IF e.sym \notin Symbols(e.en) THEN {}
         ELSE Need(e.code = CodeOf(e.en, e.sym), "C03 code of " \o e.en \o " " \o e.sym)
              \cup Need(e.out = "ok" /\ e.back = e.sym, "C03 " \o e.en \o " " \o e.sym \o " does not read back"))
LowName(c) == CASE c = "BYTE" -> "byte" [] c = "UNSIGNED_BYTE" -> "ubyte" [] c = "SHORT" -> "short" [] c = "UNSIGNED_SHORT" -> "ushort"
                [] c = "UNSIGNED_INT" -> "uint" [] c = "FLOAT" -> "float"
JudgeSize(e) ==
   Need(e.bytes = SizeOfComponent[e.c], "C03 size of component " \o e.c) \cup Need(e.comps = ComponentsOf[e.t], "C03 components of " \o e.t)
   \cup Need(e.elem = L!ElemSize(LowName(e.c), e.t), "C03 size of element " \o e.c \o " " \o e.t)
(* The words of the extensions that the packages export for use in payloads. *)
Words == [lights |-> "KHR_lights_punctual", specular |-> "KHR_materials_pbrSpecularGlossiness", transform |-> "KHR_texture_transform", unlit |-> "KHR_materials_unlit",
          directional |-> "directional", point |-> "point", spot |-> "spot"]
(* What a helper returns: the value, or the default where it is unset. *)
JudgeHelper(e) ==
   UNION {Need(e.out = "ok" /\ e.got = GValue(p, e.g, FALSE), "C02 helper for " \o Where(e.t, p)) : p \in {PropOf(e.t, e.go)}}
   \cup Need(e.same, "C02 helper changes " \o e.t)

(* Extensions whose handlers return all kinds of values, or refuse.  A place p of the document
   has a payload of the name; objs are the objects that have extensions after reading. *)
Taken(p) == p.known /\ ~p.refuse
JudgePlace(p) ==
   IF ~p.there THEN {"C22 an extension of " \o p.t \o " is lost"}
   ELSE Need(Taken(p) => p.got = p.ret, "C22 " \o p.t \o " does not have what the handler returned")
        \cup Need(~Taken(p) => p.gotRaw = p.raw, "C22 a payload of " \o p.t \o " that nobody took is not left as it was")
        \cup Need(p.known <=> p.calls > 0, "C22 an extension of " \o p.t \o (IF p.known THEN " is not delivered" ELSE " is delivered to another handler"))
        \cup Need(p.known => p.heard = p.raw, "C22 the handler is given another payload")
JudgeDeliver(e) ==
   IF e.out # "ok" THEN {"C22 a document with extensions is not decoded"}
   ELSE UNION {JudgePlace(e.places[i]) : i \in DOMAIN e.places}
        \cup Need(\A k \in DOMAIN e.objs : e.objs[k].n = Cardinality({i \in DOMAIN e.places : e.places[i].o = k}), "C22 an object has an extension that it did not have")
        \cup Need(e.out2 = "ok", "C22 what was decoded is not encoded")
        \cup (IF e.out2 # "ok" THEN {} ELSE
              UNION {LET want(p) == p.name \o (IF Taken(p) THEN p.text ELSE p.raw)
                         t == want(e.places[i]) IN
                     Need(Cardinality({k \in DOMAIN e.texts : e.texts[k] = t}) = Cardinality({k \in DOMAIN e.places : want(e.places[k]) = t}), "C22 an extension is not written as it is")
                     : i \in DOMAIN e.places}
              \cup Need(Len(e.texts) = Len(e.places), "C22 the text has other extensions"))

Judge(e) ==
   CASE e.op = "dec" -> JudgeRead(e)
     [] e.op = "enc" -> UNION {JudgeWritten(e, m) : m \in {GDoc(e.g, FALSE)}}
     [] e.op = "enum" -> JudgeEnum(e)
     [] e.op = "unknown" -> Need(e.out # "ok" /\ e.out # "panic" /\ e.out2 = "err", "C03 an unknown element type is accepted")
     [] e.op = "deliver" -> JudgeDeliver(e)
     [] e.op = "size" -> JudgeSize(e)
     [] e.op = "helper" -> JudgeHelper(e)
     [] e.op = "const" -> Need(e.word = Words[e.name], "C23 the package's word for " \o e.name)

Next == /\ pos <= Len(Trace)
        /\ Report(pos, Judge(Trace[pos]))
        /\ Done(pos)
        /\ pos' = pos + 1
=============================================================================
