------------------------------ MODULE Effects ------------------------------
(* What an encoding does: to the document nothing; to the world what the document and the
   mode determine.  A document is a list of buffers and the rest, of which only matters
   whether it can be written as JSON.  Contents are numbers, 0 is nothing.               *)
EXTENDS Base

Modes == {"text", "binary"}

Embedded(b) == [b EXCEPT !.uri = "data"]
InChunk(d, m, i) == m = "binary" /\ i = 1 /\ d.bufs[i].uri = "none"
External(d, m, i) == ~InChunk(d, m, i) /\ d.bufs[i].uri \in {"rel", "bad"} /\ d.bufs[i].data # 0
(* What the JSON says about a buffer: the current data of those without URI or with a data URI. *)
Shown(d, m, i) ==
   LET b == d.bufs[i] IN
   IF InChunk(d, m, i) \/ b.uri \in {"rel", "bad"} \/ b.data = 0 THEN [uri |-> b.uri, text |-> IF b.uri = "data" THEN b.text ELSE 0]
   ELSE [uri |-> "data", text |-> b.data]
(* The pieces of the output in their order: the text, the chunk, the files. *)
Text(d, m) == [what |-> "json", body |-> [i \in DOMAIN d.bufs |-> Shown(d, m, i)]]
ChunkPieces(d, m) == IF m = "binary" /\ d.bufs # <<>> /\ d.bufs[1].uri = "none" THEN <<[what |-> "bin", body |-> d.bufs[1].data]>> ELSE <<>>
FilesOf(d, m) == {i \in DOMAIN d.bufs : External(d, m, i)}
Fails(d, m) == ~d.ok \/ \E i \in FilesOf(d, m) : d.bufs[i].uri = "bad"
Main(d, m) == <<Text(d, m)>> \o ChunkPieces(d, m)
World(d, m) == [main |-> Main(d, m), files |-> {[i |-> i, data |-> d.bufs[i].data] : i \in FilesOf(d, m)}]
=============================================================================
