------------------------------ MODULE Registry ------------------------------
(* The registry of extension handlers: per name a register, written by registrations and
   read by decodings.  Operations have intervals of a common clock.  Versions of handlers
   are unique numbers; 0 stands for a name without handler.
     write: [v, b, e]    read: [v, b, e]  (v was used; the read happened between b and e) *)
EXTENDS Base, SequencesExt

InitialWrite == [v |-> 0, b |-> -1, e |-> 0]
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x

(* Zones (Gibbons and Korach): from the first end to the last begin of the operations with a version. *)
Zone(ws, rs, v) ==
   LET ops == {x \in ws \cup rs : x.v = v} IN [f |-> MinOf({x.e : x \in ops}), s |-> MaxOf({x.b : x \in ops})]
Forward(z) == z.f < z.s
ZonesFit(zs) ==
   /\ \A x, y \in zs : (x # y /\ Forward(x) /\ Forward(y)) => (x.s < y.f \/ y.s < x.f)
   /\ \A x, y \in zs : (Forward(x) /\ ~Forward(y)) => ~(x.f < y.s /\ y.f < x.s)
Written(ws, r) == \E w \in ws : w.v = r.v /\ w.b < r.e
Zones(ws, rs) == {Zone(ws, rs, v) : v \in {w.v : w \in ws}}
(* Some order of all operations, each at a moment of its interval, explains what the reads saw. *)
Linearizable(ws, rs) == (\A r \in rs : Written(ws, r)) /\ ZonesFit(Zones(ws, rs))

(* The same by definition *)
Orders(ops) == LET q == SetToSeq(ops) IN {[i \in DOMAIN q |-> q[p[i]]] : p \in Permutations(DOMAIN q)}
Explains(o, ws) ==
   /\ \A i, j \in DOMAIN o : i < j => ~(o[j].e < o[i].b)
   /\ \A i \in DOMAIN o : o[i] \notin ws =>
        \E k \in 1..(i - 1) : o[k] \in ws /\ o[k].v = o[i].v /\ \A m \in (k + 1)..(i - 1) : o[m] \notin ws
LinearizableByDefinition(ws, rs) == \E o \in Orders(ws \cup rs) : Explains(o, ws)

(* What one read alone may see. *)
Current(ws, r) ==
   /\ Written(ws, r)
   /\ \A w \in ws : w.v = r.v => ~\E x \in ws : w.e < x.b /\ x.e < r.b
=============================================================================
