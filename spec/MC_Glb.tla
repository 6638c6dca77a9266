------------------------------- MODULE MC_Glb --------------------------------
(* Design: an encoder writes a container piece by piece to a medium that may fail; a
   decoder then reads what is there (complete, cut anywhere, or followed by other bytes)
   through a stream that delivers it in arbitrary portions.                          *)
EXTENDS Glb

CONSTANTS JLens, BLens, Slack, JExtra, BExtra, Trail, Portions

TrailSet == {<<>>, <<7>>, Magic}

VARIABLES jlen, hasBin, blen, dlen,         \* the document
          pieces, out, wres,                \* writer: pieces still to write, medium, result
          input, cut,                       \* what the reader is given
          rpos, phase, jchunk, got, rres    \* reader
vars == <<jlen, hasBin, blen, dlen, pieces, out, wres, input, cut, rpos, phase, jchunk, got, rres>>

Json == [i \in 1..jlen |-> 200 + i]
Data == [i \in 1..dlen |-> 100 + i]
Whole == Container(Json, hasBin, blen, Data)

Init == /\ jlen \in JLens /\ hasBin \in BOOLEAN /\ blen \in BLens
        /\ dlen \in {d \in {0, blen - 1, blen, blen + Slack} : d >= 0}
        /\ (~hasBin => blen = 1 /\ dlen = 0)
        /\ pieces = Pieces(Json, hasBin, blen, Data) /\ out = <<>> /\ wres = "writing"
        /\ input = <<>> /\ cut = -1 /\ rpos = 0 /\ phase = "none" /\ jchunk = 0 /\ got = <<>> /\ rres = "none"

RU == UNCHANGED <<input, cut, rpos, phase, jchunk, got, rres>>
DU == UNCHANGED <<jlen, hasBin, blen, dlen>>
WU == UNCHANGED <<pieces, out, wres>>

WritePiece == /\ wres = "writing" /\ pieces # <<>>
              /\ out' = out \o Head(pieces) /\ pieces' = Tail(pieces) /\ wres' = wres /\ DU /\ RU
(* The medium accepts a part only, with or without saying so: the encoder must notice. *)
WriteFails == /\ wres = "writing" /\ pieces # <<>>
              /\ \E n \in {0, 1, Len(Head(pieces)) - 1} :
                   n >= 0 /\ n < Len(Head(pieces)) /\ out' = out \o SubSeq(Head(pieces), 1, n)
              /\ wres' = "error" /\ UNCHANGED pieces /\ DU /\ RU
WriteEnds == wres = "writing" /\ pieces = <<>> /\ wres' = "ok" /\ UNCHANGED <<pieces, out>> /\ DU /\ RU

(* Containers of other producers have other paddings; bytes may follow the container. *)
Foreign == {Flatten(PiecesWith(Json, JPad(Json) + x, hasBin, BinBytes(Data, blen), BPad(blen) + y)) \o t :
              x \in JExtra, y \in BExtra, t \in Trail}
StartRead == /\ wres \in {"ok", "error"} /\ phase = "none"
             /\ \/ wres = "error" /\ input' = out /\ cut' = Len(out)
                \/ wres = "ok" /\ input' \in Foreign /\ cut' \in {Len(input')}
                \/ wres = "ok" /\ cut' \in 0..(Len(out) - 1) /\ input' = SubSeq(out, 1, cut')
             /\ phase' = "header" /\ rpos' = 0 /\ UNCHANGED <<jchunk, got, rres>> /\ DU /\ WU

(* The stream delivers any number of bytes up to what is left; the decoder keeps them until
   the current part is complete.                                                         *)
Want == CASE phase = "header" -> 20 [] phase = "json" -> jchunk [] phase = "binheader" -> 8 [] OTHER -> blen
Deliver == /\ phase \in {"header", "json", "binheader", "bin"} /\ Len(got) < Want /\ rpos < Len(input)
           /\ \E k \in Portions : k <= Min(Want - Len(got), Len(input) - rpos)
                 /\ got' = got \o SubSeq(input, rpos + 1, rpos + k) /\ rpos' = rpos + k
           /\ UNCHANGED <<phase, jchunk, rres, input, cut>> /\ DU /\ WU
EndOfInput == /\ phase \in {"header", "json", "binheader", "bin"} /\ Len(got) < Want /\ rpos = Len(input)
              /\ phase' = "done" /\ rres' = "error" /\ UNCHANGED <<rpos, jchunk, got, input, cut>> /\ DU /\ WU
Header == /\ phase = "header" /\ Len(got) = 20
          /\ IF SubSeq(got, 1, 4) # Magic \/ SubSeq(got, 17, 20) # TypeJSON \/ WLess(Word(got, 9), WPlus(Word(got, 13), 20))
             THEN phase' = "done" /\ rres' = "error" /\ UNCHANGED <<jchunk, got>>
             ELSE phase' = "json" /\ jchunk' = WInt(Word(got, 13)) /\ got' = <<>> /\ UNCHANGED rres
          /\ UNCHANGED <<rpos, input, cut>> /\ DU /\ WU
JsonChunk == /\ phase = "json" /\ Len(got) = jchunk
             /\ IF SubSeq(got, 1, jlen) # Json THEN phase' = "done" /\ rres' = "error" /\ UNCHANGED got
                ELSE IF hasBin THEN phase' = "binheader" /\ got' = <<>> /\ UNCHANGED rres
                ELSE phase' = "done" /\ rres' = "ok" /\ got' = <<>>
             /\ UNCHANGED <<rpos, jchunk, input, cut>> /\ DU /\ WU
BinHeader == /\ phase = "binheader" /\ Len(got) = 8
             /\ IF SubSeq(got, 5, 8) # TypeBIN \/ WInt(Word(got, 1)) < blen
                THEN phase' = "done" /\ rres' = "error" /\ UNCHANGED got
                ELSE phase' = "bin" /\ got' = <<>> /\ UNCHANGED rres
             /\ UNCHANGED <<rpos, jchunk, input, cut>> /\ DU /\ WU
BinChunk == /\ phase = "bin" /\ Len(got) = blen /\ phase' = "done" /\ rres' = "ok"
            /\ UNCHANGED <<rpos, jchunk, got, input, cut>> /\ DU /\ WU

Next == WritePiece \/ WriteFails \/ WriteEnds \/ StartRead \/ Deliver \/ EndOfInput \/ Header \/ JsonChunk
        \/ BinHeader \/ BinChunk
Spec == Init /\ [][Next]_vars

(* C04 *)
WellFormed == wres = "ok" =>
   /\ out = Whole /\ Len(out) % 4 = 0 /\ WInt(Word(out, 9)) = Len(out)
   /\ WInt(Word(out, 13)) % 4 = 0
   /\ Len(out) = 20 + WInt(Word(out, 13)) + (IF hasBin THEN 8 + AlignUp(blen, 4) ELSE 0)
(* C07 *)
SuccessMeansComplete == wres = "ok" => out = Whole
ErrorMeansIncomplete == wres = "error" => out # Whole /\ IsPrefixOf(out, Whole)
(* C05: complete containers are understood, whatever the padding, the portions and the rest *)
Understood == phase = "done" /\ rres = "ok" => (hasBin => got = BinBytes(Data, blen))
CompleteAccepted == phase = "done" /\ input \in Foreign => rres = "ok"
(* C06: MustFail, the criterion the traces are judged by, is sound and complete for cuts *)
Cut == phase = "done" /\ input \notin Foreign /\ Len(input) >= 20 =>
   (MustFail(SubSeq(input, 1, 20), jlen, hasBin, blen,
             LET p == 20 + AlignUp(jlen, 4) IN IF Len(input) < p THEN <<>> ELSE SubSeq(input, p + 1, Min(p + 8, Len(input))),
             Len(input)) => rres = "error")
CutHeader == phase = "done" /\ Len(input) < 20 => rres = "error"
NeverShort == phase = "done" /\ rres = "ok" /\ hasBin => Len(got) = blen
(* Nothing is kept but what was delivered, whatever the headers declare. *)
KeptIsDelivered == Len(got) <= rpos
Inv == KeptIsDelivered /\ WellFormed /\ SuccessMeansComplete /\ ErrorMeansIncomplete /\ Understood /\ CompleteAccepted /\ Cut /\ CutHeader
       /\ NeverShort
=============================================================================
