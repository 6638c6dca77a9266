--------------------------------- MODULE Norm ---------------------------------
(* Exact arithmetic of normalized integers and colours (glTF 2.0, 3.6.2.2 and 3.7.2.1).
   A float32 is its bit pattern as an integer, negated for negative numbers, so that
   keys are ordered like the numbers.  NaN and infinities are beyond every number.     *)
EXTENDS Base, Json

OneKey == 1065353216                      \* 1.0
NaNKey == 2139095040
Finite(k) == k > -NaNKey /\ k < NaNKey
Abs(x) == IF x < 0 THEN -x ELSE x
Expo(k) == Max(Abs(k) \div 8388608, 1)
Mant(k) == (Abs(k) % 8388608) + (IF Abs(k) >= 8388608 THEN 8388608 ELSE 0)
Shift(k) == 150 - Expo(k)                 \* |number| = Mant / 2^Shift

Top(kind) == CASE kind = "byte" -> 127 [] kind = "ubyte" -> 255 [] kind = "short" -> 32767 [] OTHER -> 65535
Signed(kind) == kind \in {"byte", "short"}
Lowest(kind) == IF Signed(kind) THEN -Top(kind) - 1 ELSE 0
(* What an integer denotes, in units of 1/Top: the most negative one like its successor. *)
Meant(kind, v) == Max(v, -Top(kind))

Big == 16777216
(* floor(v * 2^s / d), or Big if it is that or more; 0 <= v <= d < 2^16. *)
Quot(v, d, s) ==
   IF s < 0 THEN Big ELSE
   LET a == Min(s, 14) b == Min(s - a, 14) c == s - a - b
       x1 == v * 2^a q1 == x1 \div d r1 == x1 % d
       x2 == r1 * 2^b q2 == q1 * 2^b + x2 \div d r2 == x2 % d
   IN IF c > 14 \/ (c > 0 /\ q2 >= Big \div 2^c) THEN Big
      ELSE Min(q2 * 2^c + (r2 * 2^c) \div d, Big)
(* A float that is v/d, but for the last place. *)
IsQuotient(k, v, d) ==
   /\ Finite(k) /\ (v = 0 => k = 0) /\ (v = d => k = OneKey) /\ (v = -d => k = -OneKey)
   /\ (v > 0 => k > 0) /\ (v < 0 => k < 0)
   /\ v # 0 => LET q == Quot(Abs(v), d, Shift(k)) IN q < Big /\ Mant(k) >= q - 1 /\ Mant(k) <= q + 2

(* |number| * d: the integer part and where the fraction lies; for |number| <= 1. *)
Times(k, d) ==
   LET m == Mant(k) s == Shift(k)
       t == (m % 4096) * d
       hi == (m \div 4096) * d + t \div 4096     \* product = hi * 2^12 + lo
       lo == t % 4096
   IN IF s - 12 > 30 THEN [int |-> 0, half |-> -1, small |-> TRUE]
      ELSE LET u == 2^(s - 12) f == hi % u h == u \div 2 IN
           [int |-> hi \div u,
            half |-> IF f < h THEN -1 ELSE IF f = h /\ lo = 0 THEN 0 ELSE 1,
            small |-> f < Max(u \div 256, 1)]
InUnit(k) == k >= 0 /\ k <= OneKey
(* The nearest integers to number * d. *)
Nearest(k, d) ==
   LET x == Times(k, d)
       near == CASE x.half = -1 -> {x.int} [] x.half = 0 -> {x.int, x.int + 1} [] OTHER -> {x.int + 1}
   IN IF k < 0 THEN {-n : n \in near} ELSE near
(* Integers within one step of number * d. *)
Within(k, d) == LET x == Times(k, d) IN {x.int, x.int + 1} \cup (IF x.small THEN {x.int - 1} ELSE {})

(* sRGB: entry n + 1 is the smallest number whose encoding is at least n / 65535. *)
Curve == JsonDeserialize("data/srgb.json")
Width(d) == 65535 \div d                  \* of a step, in steps of 1/65535
CurveAt(n, d) == Curve[n * Width(d) + 1]
RECURSIVE Search(_, _, _, _)
Search(k, d, a, b) ==                     \* the last of a..b that starts at or before k
   IF a = b THEN a ELSE LET m == (a + b + 1) \div 2 IN
   IF CurveAt(m, d) <= k THEN Search(k, d, m, b) ELSE Search(k, d, a, m - 1)
EncodedFloor(k, d) == Search(k, d, 0, d)
Slack == 64
EncodedWithin(k, d) ==
   LET f == EncodedFloor(k, d) IN
   {f, Min(f + 1, d)} \cup (IF f > 0 /\ k - CurveAt(f, d) <= Slack THEN {f - 1} ELSE {})
=============================================================================
