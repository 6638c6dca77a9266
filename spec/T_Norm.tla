-------------------------------- MODULE T_Norm --------------------------------
(* Judges recorded conversions against Norm.  An event has lists of inputs and outputs,
   each a tuple of channels; floats are keys.                                          *)
EXTENDS Norm, TraceRun

VARIABLE l
Init == l = 1

Channels(e) == DOMAIN e.in[1]
All(e, P(_, _, _)) == \A i \in DOMAIN e.in : \A c \in Channels(e) : P(c, e.in[i][c], e.out[i][c])
(* The lists run up or down in each channel. *)
Monotonic(e) ==
   \A i \in 1..(Len(e.in) - 1) : \A c \in Channels(e) :
      /\ e.in[i][c] <= e.in[i + 1][c] => e.out[i][c] <= e.out[i + 1][c]
      /\ e.in[i][c] >= e.in[i + 1][c] => e.out[i][c] >= e.out[i + 1][c]
Alpha(e, c) == c = 4
Shape(e) == Len(e.out) = Len(e.in) /\ \A i \in DOMAIN e.in : Len(e.out[i]) = Len(e.in[i])

Judge(e) ==
   IF e.outcome # "ok" THEN {"C25 a conversion panics"} ELSE
   IF ~Shape(e) THEN {"C25 the driver recorded nonsense"} ELSE
   LET d == Top(e.kind) IN
   CASE e.op = "den" ->
          LET Right(c, v, k) == IsQuotient(k, Meant(e.kind, v), d) IN
          Need(All(e, Right), "C25 an integer is converted to another number than it denotes")
          \cup Need(Monotonic(e), "C25 conversion to floating point is not monotonic")
     [] e.op = "norm" ->
          LET Right(c, k, v) == v \in Nearest(k, d) IN
          Need(All(e, Right), "C25 conversion from floating point does not give the nearest integer")
     [] e.op = "round" ->
          LET Right(c, v, w) == w = Meant(e.kind, v) IN
          Need(All(e, Right), "C25 an integer does not survive conversion to floating point and back")
     [] e.op = "cden" ->
          LET Right(c, v, k) == /\ (v = 0 => k = 0) /\ (v = d => k = OneKey)
                                /\ InUnit(k)
                                /\ IF Alpha(e, c) THEN IsQuotient(k, v, d) ELSE v \in EncodedWithin(k, d)
          IN Need(All(e, Right), "C25 a colour is converted to another linear colour")
             \cup Need(Monotonic(e), "C25 conversion to linear colour is not monotonic")
     [] e.op = "cnorm" ->
          LET Right(c, k, v) == /\ (k = 0 => v = 0) /\ (k = OneKey => v = d)
                                /\ IF Alpha(e, c) THEN v \in Within(k, d) ELSE v \in EncodedWithin(k, d)
          IN Need(All(e, Right), "C25 a linear colour is converted to another colour")
             \cup Need(Monotonic(e), "C25 conversion from linear colour is not monotonic")
     [] e.op = "cround" ->
          LET Right(c, v, w) == Abs(v - w) <= 1 /\ (v \in {0, d} => w = v) IN
          Need(All(e, Right), "C25 a colour does not survive conversion to linear and back")
             \cup Need(Monotonic(e), "C25 colour round trip is not monotonic")

Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ Done(l)
        /\ l' = l + 1
=============================================================================
