-------------------------------- MODULE Typed --------------------------------
(* The typed readers: the types each accepts and what it makes of the elements. *)
EXTENDS Access, Norm

Functions == {"ReadIndices", "ReadNormal", "ReadTangent", "ReadTextureCoord", "ReadWeights", "ReadJoints",
              "ReadPosition", "ReadColor", "ReadColor64", "ReadInverseBindMatrices"}
Permitted(f) ==
   CASE f = "ReadIndices" -> {"ubyte", "ushort", "uint"} \X {"SCALAR"}
     [] f \in {"ReadNormal", "ReadPosition"} -> {"float"} \X {"VEC3"}
     [] f = "ReadTangent" -> {"float"} \X {"VEC4"}
     [] f = "ReadTextureCoord" -> {"ubyte", "ushort", "float"} \X {"VEC2"}
     [] f = "ReadWeights" -> {"ubyte", "ushort", "float"} \X {"VEC4"}
     [] f = "ReadJoints" -> {"ubyte", "ushort"} \X {"VEC4"}
     [] f \in {"ReadColor", "ReadColor64"} -> {"ubyte", "ushort", "float"} \X {"VEC3", "VEC4"}
     [] OTHER -> {"float"} \X {"MAT4"}
Target(f) ==
   CASE f = "ReadIndices" -> <<"uint", "SCALAR">>
     [] f \in {"ReadNormal", "ReadPosition"} -> <<"float", "VEC3">>
     [] f \in {"ReadTangent", "ReadWeights"} -> <<"float", "VEC4">>
     [] f = "ReadTextureCoord" -> <<"float", "VEC2">>
     [] f \in {"ReadJoints", "ReadColor64"} -> <<"ushort", "VEC4">>
     [] f = "ReadColor" -> <<"ubyte", "VEC4">>
     [] OTHER -> <<"float", "MAT4">>

(* Components as bytes to numbers: floats to keys. *)
FloatKey(b) == LET k == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (b[4] % 128) IN IF b[4] > 127 THEN -k ELSE k
Comp(flat, c, j) ==           \* component j (from 0) of a list of bytes
   LET z == CSize(c) b == SubSeq(flat, j * z + 1, (j + 1) * z) IN
   IF c = "float" THEN FloatKey(b) ELSE IF c = "uint" THEN b ELSE Num(b)

Half8 == 257
(* May the component x of the accessor become y?  alpha: the fourth channel of a colour. *)
Becomes(f, c, x, y, alpha) ==
   CASE f = "ReadIndices" -> y = (IF c = "uint" THEN x ELSE <<x % 256, x \div 256, 0, 0>>)
     [] f \in {"ReadTextureCoord", "ReadWeights"} -> IF c = "float" THEN x = y ELSE IsQuotient(y, x, Top(c))
     [] f = "ReadColor" -> CASE c = "ubyte" -> y = x [] c = "ushort" -> y = x \div 256
                             [] OTHER -> InUnit(x) => y \in (IF alpha THEN Within(x, 255) ELSE EncodedWithin(x, 255))
     [] f = "ReadColor64" -> CASE c = "ubyte" -> y = x * Half8 [] c = "ushort" -> y = x
                               [] OTHER -> InUnit(x) => y \in (IF alpha THEN Within(x, 65535) ELSE EncodedWithin(x, 65535))
     [] OTHER -> y = x
Opaque(f) == IF f = "ReadColor" THEN 255 ELSE 65535
Colour(f) == f \in {"ReadColor", "ReadColor64"}

(* The result for n elements: flat bytes of the accessor's elements and of the result. *)
Converted(f, c, t, n, flat, res) ==
   LET to == Target(f) k == Comps(to[2]) m == Comps(t) IN
   /\ Len(res) = n * k * CSize(to[1])
   /\ \A i \in 0..(n - 1) : \A j \in 0..(k - 1) :
         LET y == Comp(res, to[1], i * k + j) IN
         IF j >= m THEN y = Opaque(f)
         ELSE Becomes(f, c, Comp(flat, c, i * m + j), y, Colour(f) /\ j = 3)
LowBytes(t, n, flat, res) ==     \* what is known to be wrong
   LET m == Comps(t) IN
   /\ Len(res) = n * 4
   /\ \A i \in 0..(n - 1) : \A j \in 0..3 : res[i * 4 + j + 1] = IF j >= m THEN 255 ELSE flat[(i * m + j) * 2 + 1]
=============================================================================
