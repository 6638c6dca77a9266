----------------------------- MODULE MC_Effects -----------------------------
(* Design: several encodings of one document run at once, each in small steps, to
   destinations that may fail at any step; between encodings the owner of the document
   edits it.  What was written by an encoding that succeeds is a function of the document
   and the mode, whatever happened before or happens at the same time.                  *)
EXTENDS Effects

CONSTANTS Encoders, Datas, Uris, MaxBufs, MaxRuns

VARIABLES mem,      \* the document
          runs,     \* encodings begun
          mode, pc, shown, main, files,    \* per encoder
          done      \* what has been written: [doc, mode, res, world]
vars == <<mem, runs, mode, pc, shown, main, files, done>>

Buffers == {[uri |-> u, data |-> x, text |-> y] : u \in Uris, x \in Datas, y \in Datas}
Legal(x) == x.uri = "data" \/ x.text = 0
Docs == UNION {[1..k -> {x \in Buffers : Legal(x)}] : k \in 0..MaxBufs}
Idle == \A p \in Encoders : pc[p] = "idle"

Init == /\ mem \in {[bufs |-> bs, ok |-> o] : bs \in Docs, o \in BOOLEAN}
        /\ runs = 0 /\ mode = [p \in Encoders |-> "text"] /\ pc = [p \in Encoders |-> "idle"]
        /\ shown = [p \in Encoders |-> <<>>] /\ main = [p \in Encoders |-> <<>>] /\ files = [p \in Encoders |-> {}] /\ done = {}

Edit == /\ Idle /\ runs < MaxRuns /\ mem.bufs # <<>>
        /\ \E i \in DOMAIN mem.bufs, x \in Datas : mem.bufs[i].data # x /\ mem' = [mem EXCEPT !.bufs[i].data = x]
        /\ runs' = runs + 1 /\ UNCHANGED <<mode, pc, shown, main, files, done>>
Begin(p) == /\ pc[p] = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
            /\ \E m \in Modes : mode' = [mode EXCEPT ![p] = m]
            /\ pc' = [pc EXCEPT ![p] = "marshal"] /\ shown' = [shown EXCEPT ![p] = <<>>] /\ main' = [main EXCEPT ![p] = <<>>]
            /\ files' = [files EXCEPT ![p] = {}] /\ UNCHANGED <<mem, done>>
(* The view of the buffers is built in memory of the encoding, one buffer after the other. *)
Copy(p) == /\ pc[p] = "marshal" /\ Len(shown[p]) < Len(mem.bufs)
           /\ shown' = [shown EXCEPT ![p] = Append(@, Shown(mem, mode[p], Len(@) + 1))]
           /\ UNCHANGED <<mem, runs, mode, pc, main, files, done>>
Ends(p, res) == /\ pc' = [pc EXCEPT ![p] = "idle"]
                /\ done' = done \cup {[doc |-> mem, mode |-> mode[p], res |-> res, world |-> [main |-> main'[p], files |-> files'[p]]]}
Write(p) == /\ pc[p] = "marshal" /\ Len(shown[p]) = Len(mem.bufs)
            /\ IF ~mem.ok THEN UNCHANGED <<main, files>> /\ Ends(p, "err")
               ELSE \/ main' = [main EXCEPT ![p] = <<[what |-> "json", body |-> shown[p]]>>] /\ pc' = [pc EXCEPT ![p] = "chunk"] /\ UNCHANGED <<files, done>>
                    \/ UNCHANGED <<main, files>> /\ Ends(p, "err")         \* the destination fails
            /\ UNCHANGED <<mem, runs, mode, shown>>
Chunk(p) == /\ pc[p] = "chunk"
            /\ \/ main' = [main EXCEPT ![p] = @ \o ChunkPieces(mem, mode[p])] /\ pc' = [pc EXCEPT ![p] = "files"] /\ UNCHANGED <<files, done>>
               \/ ChunkPieces(mem, mode[p]) # <<>> /\ UNCHANGED <<main, files>> /\ Ends(p, "err")
            /\ UNCHANGED <<mem, runs, mode, shown>>
Todo(p) == FilesOf(mem, mode[p]) \ {f.i : f \in files[p]}
File(p) == /\ pc[p] = "files"
           /\ IF Todo(p) = {} THEN UNCHANGED <<main, files>> /\ Ends(p, "ok")
              ELSE LET i == CHOOSE x \in Todo(p) : \A y \in Todo(p) : x <= y IN
                   IF mem.bufs[i].uri = "bad" THEN UNCHANGED <<main, files>> /\ Ends(p, "err")
                   ELSE \/ files' = [files EXCEPT ![p] = @ \cup {[i |-> i, data |-> mem.bufs[i].data]}] /\ UNCHANGED <<main, pc, done>>
                        \/ UNCHANGED <<main, files>> /\ Ends(p, "err")
           /\ UNCHANGED <<mem, runs, mode, shown>>
Next == Edit \/ \E p \in Encoders : Begin(p) \/ Copy(p) \/ Write(p) \/ Chunk(p) \/ File(p)
Spec == Init /\ [][Next]_vars

(* C08 *)
Determined == \A x \in done : x.res = "ok" => x.world = World(x.doc, x.mode) /\ ~Fails(x.doc, x.mode)
Repeatable == \A x, y \in done : (x.doc = y.doc /\ x.mode = y.mode /\ x.res = "ok" /\ y.res = "ok") => x.world = y.world
PartOnly == \A x \in done : x.res = "err" => IsPrefixOf(x.world.main, Main(x.doc, x.mode)) /\ x.world.files \subseteq World(x.doc, x.mode).files
Inv == Determined /\ Repeatable /\ PartOnly
OnlyEditsChange == [][mem' # mem => Idle /\ pc' = pc]_vars
=============================================================================
