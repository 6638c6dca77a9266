-------------------------------- MODULE T_Glb --------------------------------
(* Judges recorded encodings and decodings of containers against Glb. *)
EXTENDS Glb, TraceRun

VARIABLES l, st
NoSource == [text |-> "", want |-> <<>>, main |-> <<>>, files |-> <<>>]
Init == l = 1 /\ st = NoSource

(* ------------------------------------------------------------------ C04 *)
JudgeEncode(e) ==
   IF e.out # "ok" THEN {"C04 writing a container fails"}
   ELSE IF Len(e.bytes) < 20 \/ e.jsonEnd < 0 THEN {"C04 what was written is not a container with a JSON chunk"}
   ELSE
   LET hasBin == e.nbuf > 0 /\ ~e.uris
       json == SubSeq(e.bytes, 21, 20 + e.jsonEnd)
       ps == Pieces(json, hasBin, e.blen, e.data)
       whole == Flatten(ps)
       jchunk == WInt(Word(e.bytes, 13))
   IN Need(SubSeq(e.bytes, 1, 8) = Magic \o LE32(2), "C04 magic number or version is wrong")
      \cup Need(WInt(Word(e.bytes, 9)) = Len(e.bytes), "C04 total length is not the number of bytes written")
      \cup Need(jchunk = Len(json) + JPad(json) /\ SubSeq(e.bytes, 17, 20) = TypeJSON, "C04 JSON chunk header is wrong")
      \cup Need(\A i \in (21 + e.jsonEnd)..Min(20 + jchunk, Len(e.bytes)) : e.bytes[i] = 32, "C04 JSON chunk is not padded with spaces")
      \cup Need(e.jsonBuffers = e.nbuf /\ e.jsonUri = e.uris, "C04 the JSON text does not tell whether the first buffer is in the binary chunk")
      \cup Need(e.bytes = whole, "C04 the container is not what its document prescribes")

(* ------------------------------------------------------------------ C05 *)
JudgeDecode(e) ==
   Need(e.out = "ok", "C05 a well-formed " \o e.form \o " document is not decoded")
   \cup (IF e.out # "ok" THEN {} ELSE
      Need(e.digest = st.text, "C05 the decoded document depends on the container or the stream")
      \cup Need(e.bufs = st.want, "C05 the decoded buffers depend on the container or the stream"))

(* ------------------------------------------------------------------ C06 *)
Ends(e) == Need(e.out \in {"ok", "err", "short"}, "C06 decoding does not end with a document or an error")
           \cup Need(e.alloc <= MemoryFor(e.fed), "C06 memory is reserved for bytes that are declared but absent")
Whole(e) == Need(e.binLen >= e.binDecl, "C06 success with a binary chunk buffer that is too short")
JudgeDamage(e) ==
   Ends(e) \cup Whole(e) \cup
   (IF Len(e.h) < 20 THEN Need(e.out # "ok", "C06 truncated container is decoded")
    ELSE IF SubSeq(e.h, 1, 4) # Magic THEN {}
    ELSE Need(MustFail(e.h, e.jsonEnd, e.need, e.blen, e.bh, e.avail) => e.out # "ok",
              "C06 damaged or truncated container is decoded"))
JudgeDamageText(e) ==
   Ends(e) \cup Need(e.avail < e.jsonEnd => e.out # "ok", "C06 truncated text is decoded")
JudgeResource(e) ==
   Ends(e) \cup Need(e.must => e.out # "ok", "C06 failing resource is not reported")
   \cup Need(e.kind # "none" \/ e.out = "ok", "C06 healthy resources are not decoded")
JudgeGarbage(e) == Ends(e) \cup Whole(e)

(* ------------------------------------------------------------------ C07 *)
Refused(e) == \E i \in 1..Len(e.log) : e.log[i].bad
JudgeHealthy(e) ==
   Need(e.out = "ok", "C07 encoding to a healthy destination fails")
   \cup Need(e.files = st.files, "C07 success without all of the external buffers")
JudgeFault(e) ==
   Need(e.out \in {"ok", "err"}, "C07 encoding to a failing destination panics")
   \cup Need(Refused(e) => e.out # "ok", "C07 a refused write, create or close is not reported")
   \cup Need(e.out = "ok" => e.main = st.main /\ e.files = st.files, "C07 success although not all bytes were accepted")
   \cup Need(~Refused(e) => e.out = "ok", "C07 encoding fails although nothing was refused")
JudgeSave(e) ==
   Need(e.must => e.out = "err", "C07 saving to an impossible destination is not reported")
   \cup Need(~e.must => e.out = "ok", "C07 saving to a healthy destination fails")

Judge(e) ==
   CASE e.op = "encode" -> JudgeEncode(e)
     [] e.op = "decode" -> JudgeDecode(e)
     [] e.op = "damage" -> JudgeDamage(e)
     [] e.op = "damageText" -> JudgeDamageText(e)
     [] e.op = "resource" -> JudgeResource(e)
     [] e.op = "garbage" -> JudgeGarbage(e)
     [] e.op = "healthy" -> JudgeHealthy(e)
     [] e.op = "fault" -> JudgeFault(e)
     [] e.op = "save" -> JudgeSave(e)
     [] OTHER -> {}

Step(e) ==
   CASE e.op = "source" -> [st EXCEPT !.text = e.text, !.want = e.want]
     [] e.op = "files" -> [st EXCEPT !.files = e.files]
     [] e.op = "healthy" -> [st EXCEPT !.main = e.main]
     [] OTHER -> st

Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ Done(l)
        /\ st' = Step(Trace[l])
        /\ l' = l + 1
=============================================================================
