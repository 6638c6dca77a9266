------------------------------ MODULE Resources ------------------------------
(* Where buffers live: URIs, the names they denote, data URIs, and the resources of a file
   system.  Texts are sequences of bytes.                                              *)
EXTENDS Base

Slash == 47
Backslash == 92
Dot == 46
Colon == 58
Percent == 37
Letter(c) == c \in 65..90 \/ c \in 97..122
Digit(c) == c \in 48..57
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> 99

(* ---- names *)
RECURSIVE Split(_)
Split(s) == IF \E i \in DOMAIN s : s[i] = Slash
            THEN LET i == CHOOSE j \in DOMAIN s : s[j] = Slash /\ \A k \in 1..(j - 1) : s[k] # Slash
                 IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)))
            ELSE <<s>>
Elements(s) == SelectSeq(Split(s), LAMBDA x : x # <<>> /\ x # <<Dot>>)
Up == <<Dot, Dot>>
(* Depth reached after the first k elements, when every element that is not ".." descends. *)
RECURSIVE Lowest(_, _, _)
Lowest(es, depth, low) ==
   IF es = <<>> THEN low
   ELSE LET d == IF Head(es) = Up THEN depth - 1 ELSE depth + 1 IN Lowest(Tail(es), d, Min(low, d))
(* The name denotes a location inside the root. *)
Local(s) == s # <<>> /\ s[1] # Slash /\ Lowest(Elements(s), 0, 0) >= 0

(* ---- URIs *)
Forward(s) == [i \in DOMAIN s |-> IF s[i] = Backslash THEN Slash ELSE s[i]]
BadEscape(s) == \E i \in DOMAIN s : s[i] = Percent /\ (i + 2 > Len(s) \/ HexVal(s[i + 1]) > 15 \/ HexVal(s[i + 2]) > 15)
RECURSIVE Unescape(_)
Unescape(s) == IF s = <<>> THEN <<>>
               ELSE IF s[1] = Percent THEN <<16 * HexVal(s[2]) + HexVal(s[3])>> \o Unescape(SubSeq(s, 4, Len(s)))
               ELSE <<s[1]>> \o Unescape(Tail(s))
(* scheme://... *)
IsURL(s) == \E i \in 2..(Len(s) - 2) :
   /\ SubSeq(s, i, i + 2) = <<Colon, Slash, Slash>> /\ Letter(s[1])
   /\ \A k \in 1..(i - 1) : Letter(s[k]) \/ Digit(s[k]) \/ s[k] \in {43, 45, 46}
Host(s) == LET es == SelectSeq(Split(Forward(s)), LAMBDA x : x # <<Dot>>) IN Len(es) > 1 /\ es[1] = <<>> /\ es[2] = <<>>
(* URIs whose reading as a path is debatable: only containment is required of them. *)
Debatable(s) ==
   \/ BadEscape(s)
   \/ \E i \in DOMAIN s : s[i] = Colon \/ s[i] < 32 \/ s[i] = 127
   \/ s # <<>> /\ s[1] # Slash /\ Host(s)    \* a host that may be malformed, or a name with backslashes
Name(s) == Unescape(Forward(s))
LeadsOutside(s) == ~Debatable(s) /\ ~Local(Name(s))
SameName(a, b) == Elements(a) = Elements(b)

(* ---- data URIs *)
OctetPrefix == <<100, 97, 116, 97, 58, 97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 111, 99, 116, 101, 116, 45,
                 115, 116, 114, 101, 97, 109, 59, 98, 97, 115, 101, 54, 52>>      \* data:application/octet-stream;base64
PngPrefix == <<100, 97, 116, 97, 58, 105, 109, 97, 103, 101, 47, 112, 110, 103, 59, 98, 97, 115, 101, 54, 52>>
JpegPrefix == <<100, 97, 116, 97, 58, 105, 109, 97, 103, 101, 47, 106, 112, 101, 103, 59, 98, 97, 115, 101, 54, 52>>
Comma == 44
Equal == 61

B64Char(v) == CASE v < 26 -> 65 + v [] v < 52 -> 71 + v [] v < 62 -> v - 4 [] v = 62 -> 43 [] OTHER -> 47
B64Val(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> 99
B64(data) ==
   LET n == Len(data)
       d(i) == IF i <= n THEN data[i] ELSE 0
       Sextet(j) == LET q == (j - 1) \div 4 r == (j - 1) % 4 IN
          CASE r = 0 -> d(3 * q + 1) \div 4
            [] r = 1 -> 16 * (d(3 * q + 1) % 4) + d(3 * q + 2) \div 16
            [] r = 2 -> 4 * (d(3 * q + 2) % 16) + d(3 * q + 3) \div 64
            [] OTHER -> d(3 * q + 3) % 64
       Used(j) == LET q == (j - 1) \div 4 r == (j - 1) % 4 IN r <= n - 3 * q
   IN [j \in 1..(4 * ((n + 2) \div 3)) |-> IF Used(j) THEN B64Char(Sextet(j)) ELSE Equal]
Pads(p) == IF Len(p) = 0 THEN 0 ELSE IF p[Len(p)] # Equal THEN 0 ELSE IF p[Len(p) - 1] # Equal THEN 1 ELSE 2
B64Valid(p) == Len(p) % 4 = 0 /\ \A i \in 1..(Len(p) - Pads(p)) : B64Val(p[i]) < 64
B64Decode(p) ==
   LET v(i) == IF p[i] = Equal THEN 0 ELSE B64Val(p[i])
       Byte(k) == LET q == (k - 1) \div 3 r == (k - 1) % 3 IN
          CASE r = 0 -> 4 * v(4 * q + 1) + v(4 * q + 2) \div 16
            [] r = 1 -> 16 * (v(4 * q + 2) % 16) + v(4 * q + 3) \div 4
            [] OTHER -> 64 * (v(4 * q + 3) % 4) + v(4 * q + 4)
   IN [k \in 1..((Len(p) \div 4) * 3 - Pads(p)) |-> Byte(k)]
Canonical(p) == B64Valid(p) /\ B64(B64Decode(p)) = p
LineBreaks(p) == \E i \in DOMAIN p : p[i] \in {10, 13}
NoBreaks(p) == SelectSeq(p, LAMBDA c : c \notin {10, 13})

DataURI(prefix, data) == prefix \o <<Comma>> \o B64(data)
HasPrefix(s, p) == IsPrefixOf(p, s)
Embedded(s) == HasPrefix(s, OctetPrefix)
EmbeddedImage(s) == HasPrefix(s, PngPrefix) \/ HasPrefix(s, JpegPrefix)
Payload(s, prefix) == SubSeq(s, Len(prefix) + 2, Len(s))
WellFormedData(s, prefix) == Len(s) > Len(prefix) /\ s[Len(prefix) + 1] = Comma

(* ---- where a document's buffers go; a buffer has uri, data and blen *)
Dest(bufs, i, binary) ==
   LET b == bufs[i] IN
   CASE binary /\ i = 1 /\ b.uri = <<>> -> "bin"
     [] b.data # <<>> /\ (b.uri = <<>> \/ Embedded(b.uri)) -> "embed"
     [] b.uri = <<>> -> "nowhere"
     [] Embedded(b.uri) -> "empty"
     [] IsURL(b.uri) -> "url"
     [] b.data # <<>> -> "file"
     [] OTHER -> "elsewhere"
Cut(data, n) == SubSeq(data, 1, Min(n, Len(data)))
=============================================================================
