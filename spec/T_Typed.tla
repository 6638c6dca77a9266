------------------------------- MODULE T_Typed -------------------------------
(* Judges recorded calls of the typed readers against Typed. *)
EXTENDS Large, TraceRun

VARIABLE l
Init == l = 1

(* e.fn, e.d, e.a (well-formed), e.out, e.gt, e.flat: the result's bytes *)
JudgeLarge(e) ==
   LET to == Target(e.fn) IN
   IF e.out # "ok" THEN {"C21 a typed reader rejects a permitted type"}
   ELSE IF e.gt # GoType(to[1], to[2]) \/ e.n # e.a.n THEN {"C21 a typed reader returns another type or number of elements"}
   ELSE LET v == LargeValue(e) n == Len(e.at) IN
        IF Converted(e.fn, e.a.c, e.a.t, n, v, e.flat) THEN {}
        ELSE IF e.fn = "ReadColor" /\ e.a.c = "ushort" /\ LowBytes(e.a.t, n, v, e.flat)
             THEN {"C21 16-bit colours lose their high byte [key=ReadColor/ushort/low-byte]"}
        ELSE {"C21 a typed reader converts elements of a large accessor wrongly"}

Judge(e) ==
   IF e.op = "large" THEN JudgeLarge(e) ELSE
   LET a == e.a ok == <<a.c, a.t>> \in Permitted(e.fn) to == Target(e.fn) IN
   IF ~ok THEN Need(e.out = "err", "C21 a typed reader accepts a type that is not permitted")
   ELSE IF e.out # "ok" THEN {"C21 a typed reader rejects a permitted type"}
   ELSE IF e.gt # GoType(to[1], to[2]) \/ e.n # a.n THEN {"C21 a typed reader returns another type or number of elements"}
   ELSE LET v == Value(e.d, a) IN
        IF Converted(e.fn, a.c, a.t, a.n, v, e.flat) THEN {}
        ELSE IF e.fn = "ReadColor" /\ a.c = "ushort" /\ LowBytes(a.t, a.n, v, e.flat)
             THEN {"C21 16-bit colours lose their high byte [key=ReadColor/ushort/low-byte]"}
        ELSE {"C21 a typed reader converts elements wrongly"}

Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ Done(l)
        /\ l' = l + 1
=============================================================================
