--------------------------------- MODULE Glb ---------------------------------
(* The binary container: what a writer must produce and what a reader must make of a
   byte sequence, complete or damaged.                                             *)
EXTENDS Base

LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
Magic == <<103, 108, 84, 70>>                 \* "glTF"
TypeJSON == <<74, 83, 79, 78>>                \* "JSON"
TypeBIN == <<66, 73, 78, 0>>                  \* "BIN"
Spaces(n) == [i \in 1..n |-> 32]

JPad(json) == AlignUp(Len(json), 4) - Len(json)
BPad(blen) == AlignUp(blen, 4) - blen
(* Exactly blen bytes of the buffer: its data, cut or extended with zeros. *)
BinBytes(data, blen) == [i \in 1..blen |-> IF i <= Len(data) THEN data[i] ELSE 0]

HeaderPiece(jchunk, total) == Magic \o LE32(2) \o LE32(total) \o LE32(jchunk) \o TypeJSON
BinHeaderPiece(bchunk) == LE32(bchunk) \o TypeBIN

(* The parts of a container in the order in which they are written; jpad and bpad are the
   numbers of padding bytes.                                                          *)
PiecesWith(json, jpad, hasBin, bin, bpad) ==
   LET jchunk == Len(json) + jpad
       bchunk == Len(bin) + bpad
       total == 20 + jchunk + (IF hasBin THEN 8 + bchunk ELSE 0)
   IN <<HeaderPiece(jchunk, total), json, Spaces(jpad)>>
      \o (IF hasBin THEN <<BinHeaderPiece(bchunk), bin, Zeros(bpad)>> ELSE <<>>)
Pieces(json, hasBin, blen, data) ==
   PiecesWith(json, JPad(json), hasBin, IF hasBin THEN BinBytes(data, blen) ELSE <<>>, BPad(blen))
RECURSIVE Flatten(_)
Flatten(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Flatten(Tail(ps))
Container(json, hasBin, blen, data) == Flatten(Pieces(json, hasBin, blen, data))

(* 32-bit words as <<low, high>> halves, since TLC's integers are too small. *)
Word(b, p) == <<b[p] + 256 * b[p + 1], b[p + 2] + 256 * b[p + 3]>>
WPlus(w, n) == LET lo == w[1] + n IN <<lo % 65536, w[2] + lo \div 65536>>
WAdd(w, v) == LET lo == w[1] + v[1] IN <<lo % 65536, w[2] + v[2] + lo \div 65536>>
WLess(w, v) == w[2] < v[2] \/ (w[2] = v[2] /\ w[1] < v[1])
WInt(w) == IF w[2] < 16384 THEN w[1] + 65536 * w[2] ELSE 1073741824

(* Must decoding fail?  input: what the reader can see of a container that was well-formed
   before it was damaged.  h: the first 20 bytes after damage; jsonEnd: length of the JSON
   text; needBin: the first buffer has no URI; blen: its declared length; bh: the eight
   bytes that follow the JSON chunk (<<>> when there are none); avail: bytes the reader
   gets in total.                                                                      *)
MustFail(h, jsonEnd, needBin, blen, bh, avail) ==
   LET total == Word(h, 9) jlen == Word(h, 13) IN
   \/ SubSeq(h, 17, 20) # TypeJSON
   \/ WLess(total, WPlus(jlen, 20))
   \/ WLess(jlen, <<jsonEnd % 65536, jsonEnd \div 65536>>)
   \/ avail < 20 + jsonEnd
   \/ /\ needBin
      /\ \/ Len(bh) < 8
         \/ SubSeq(bh, 5, 8) # TypeBIN
         \/ WInt(Word(bh, 1)) < blen
         \/ WLess(total, WPlus(WAdd(jlen, Word(bh, 1)), 28))
         \/ WInt(jlen) > avail - 28 - blen
(* The memory that reading may take, given the bytes that were delivered: JSON becomes many
   times larger in memory, but nothing grows with what is merely declared.               *)
MemoryFor(fed) == 1000000 + 1000 * fed
=============================================================================
