----------------------------- MODULE Gen_Layout -----------------------------
(* Scenarios for binary.Read, Write, MakeSlice and MakeSliceBuffer: every type pair with
   every class of length, stride and byte-slice length around the specification's limits. *)
EXTENDS Layout, Json

CONSTANTS Ns, Over, BufOver, Caps

VARIABLE sc

Strides(c, t, n) == {0, 1, BareSize(c, t), CSize(c)} \cup {ElemSize(c, t) + e : e \in Over}
Odd(c, t) == {-1, -1000000000, 1, ElemSize(c, t) - CSize(c), 1000000000} \ {0}
Lens(c, t, n, s) ==
   {l \in {0} \cup {Extent(c, t, n, s, ElemSize(c, t)) + d : d \in BufOver}
               \cup {Extent(c, t, n, s, BareSize(c, t)) + d : d \in {-1, 0}} : l >= 0}

Legal == UNION {UNION {{[op |-> o, c |-> c, t |-> t, n |-> n, stride |-> s, len |-> l] :
            l \in Lens(c, t, n, s), o \in {"read", "write"}} :
            s \in Strides(c, t, n)} : c \in CTypes, t \in TTypes, n \in Ns}
Illegal == UNION {UNION {{[op |-> o, c |-> c, t |-> t, n |-> n, stride |-> s, len |-> l] :
            l \in {0, 1, ElemSize(c, t) - 1, n * ElemSize(c, t), n * ElemSize(c, t) + 64},
            o \in {"read", "write"}} :
            s \in Odd(c, t)} : c \in CTypes, t \in TTypes, n \in Ns}
Single == {[op |-> o, c |-> c, t |-> t, n |-> 1, stride |-> 0, len |-> l] :
            o \in {"get", "put"}, c \in CTypes, t \in TTypes, l \in {96}}
Colours == UNION {{[op |-> o, c |-> c, t |-> "COLOR", n |-> n, stride |-> s, len |-> l] :
            o \in {"read", "write"}, n \in Ns, l \in Lens(c, "VEC4", 2, s) \cup {40}} :
            c \in {"ubyte", "ushort"}, s \in {0, 4, 8, 12}}
Make == {[op |-> "make", c |-> c, t |-> t, n |-> n, len |-> 0, cap |-> -1, off |-> 0] :
            c \in CTypes, t \in TTypes, n \in Ns \cup {17}}
MakeBuf == {r \in {[op |-> "makebuf", c |-> c, t |-> t, n |-> n, len |-> l, cap |-> l + e, off |-> o] :
            c \in CTypes, t \in TTypes, n \in Ns,
            l \in {0, 1, 3, 4, 7, 16, 33, 64, 100, 129}, e \in Caps, o \in {16}} : TRUE}
NilBuf == {[op |-> "makebuf", c |-> c, t |-> t, n |-> n, len |-> 0, cap |-> -1, off |-> 0] :
            c \in CTypes, t \in TTypes, n \in Ns}

Init == sc \in Legal \cup Illegal \cup Single \cup Colours \cup Make \cup MakeBuf \cup NilBuf
Next == FALSE /\ sc' = sc
Emit == PrintT("@S " \o ToJson(sc))
=============================================================================
