------------------------------ MODULE SchemaGen ------------------------------
(* Documents around one object whose properties take chosen values. *)
EXTENDS Schema

Fracs == <<"0.25", "0.5", "-0.75", "1.5", "-2.25", "3.125", "0.1", "1024.5", "0.015625", "-0.5", "7.75", "0.3", "-1.25", "9.5", "0.7", "-0.2">>
Vector(n) == A([i \in 1..n |-> X(Fracs[i])])
Nearly(d) == A([i \in DOMAIN d.a |-> IF i = Len(d.a) THEN X("0.5") ELSE d.a[i]])
Unit0(n) == A([i \in 1..n |-> N(IF i = 1 THEN "1" ELSE "0")])

ReqVal(p) == CASE p.kind = "enum" -> E(CHOOSE s \in Symbols(p.of) : E(s) # p.d)
               [] p.kind = "int" -> N("3") [] p.kind = "num" -> X("0.25") [] p.kind = "ints" -> A(<<N("0"), N("2")>>)
               [] p.kind = "str" -> S("t") [] p.kind = "ver" -> S("2.0")
               [] p.kind = "attrs" -> O(<<KV("POSITION", N("0"))>>)
GoZero(p) == CASE p.kind \in {"optint", "optnum", "optfix", "optobj", "any"} -> Nil
               [] p.kind \in {"str", "uri", "ver"} -> S("") [] p.kind \in {"int", "num"} -> N("0") [] p.kind = "bool" -> B(FALSE)
               [] p.kind \in {"nums", "ints", "strs", "list", "attrslist"} -> A(<<>>) [] p.kind \in {"attrs", "ext"} -> O(<<>>)
               [] p.kind \in {"fix", "fixz"} -> Z(Len(p.d.a)) [] p.kind = "enum" -> p.d
RECURSIVE MinMem(_)
MinMem(t) ==     \* only what the format requires
   [f |-> [n \in GoFields(t) |-> Only({
             IF t = "Camera" /\ n = "Orthographic" THEN MinMem("Orthographic")
             ELSE IF p.kind = "obj" THEN MinMem(p.of)
             ELSE IF p.kind = "list" /\ p.req THEN A(<<MinMem(p.of)>>)
             ELSE IF p.req THEN ReqVal(p) ELSE GoZero(p) : p \in {PropOf(t, n)}})]]

(* ------------------------------------------------------------ extra data and extensions *)
Extra == {O(<<KV("a", N("0")), KV("b", A(<<B(FALSE), Nil, S("")>>))>>), A(<<>>), S("e"), N("0"), B(FALSE), O(<<>>), X("0.1")}
Unknown == {O(<<>>), O(<<KV("deep", O(<<KV("list", A(<<N("1"), X("0.5"), Nil, O(<<>>)>>))>>)), KV("light", S("x"))>>), A(<<N("1"), A(<<>>)>>),
            S("text"), N("0"), N("12345678901234567890"), X("0.12345678901234567890123"), B(FALSE), Nil}
Malformed ==
  {<<SpecularName, S("x")>>, <<SpecularName, O(<<KV("glossinessFactor", S("x"))>>)>>, <<SpecularName, O(<<KV("diffuseFactor", N("1"))>>)>>,
   <<SpecularName, O(<<KV("diffuseTexture", O(<<KV("index", S("a"))>>)), KV("glossinessFactor", N("0"))>>)>>,
   <<Transform, A(<<N("1")>>)>>, <<Transform, O(<<KV("offset", S("x")), KV("rotation", N("1"))>>)>>, <<Transform, O(<<KV("texCoord", X("0.5"))>>)>>,
   <<Transform, B(TRUE)>>, <<LightsName, O(<<KV("lights", O(<<>>))>>)>>, <<LightsName, O(<<KV("light", S("x"))>>)>>,
   <<LightsName, O(<<KV("lights", A(<<O(<<KV("intensity", S("x"))>>)>>))>>)>>, <<UnlitName, S("x")>>, <<UnlitName, A(<<N("2")>>)>>, <<UnlitName, N("1")>>}
ValidPayloads ==
  {<<SpecularName, O(<<>>)>>, <<SpecularName, O(<<KV("glossinessFactor", N("0")), KV("specularFactor", Z(3))>>)>>,
   <<SpecularName, O(<<KV("diffuseTexture", O(<<KV("extensions", O(<<KV("EXT_x", A(<<N("1")>>)), KV(Transform, O(<<KV("offset", A(<<N("0"), X("0.5")>>))>>))>>)),
                                               KV("extras", O(<<KV("offset", Z(2))>>)), KV("index", N("0"))>>))>>)>>,
   <<Transform, O(<<>>)>>, <<Transform, O(<<KV("rotation", X("0.5")), KV("texCoord", N("0"))>>)>>, <<Transform, O(<<KV("offset", A(<<N("1"), N("0")>>)), KV("scale", Ones(2))>>)>>,
   <<LightsName, O(<<KV("light", N("0"))>>)>>, <<LightsName, O(<<KV("light", N("3"))>>)>>,
   <<LightsName, O(<<KV("lights", A(<<O(<<KV("type", S("point"))>>), O(<<KV("intensity", N("0")), KV("range", X("0.5")), KV("spot", O(<<>>)), KV("type", S("spot"))>>)>>))>>)>>,
   <<UnlitName, O(<<>>)>>, <<UnlitName, O(<<KV("x", Nil), KV("y", A(<<S("u")>>))>>)>>}

(* Properties added to an object. *)
One1 == {<<KV("EXT_any", u)>> : u \in Unknown} \cup {<<KV("khr_materials_unlit", u)>> : u \in {O(<<>>), S("x")}}
        \cup {<<KV(m[1], m[2])>> : m \in Malformed \cup ValidPayloads}
Two == {<<KV("EXT_any", O(<<KV("k", A(<<N("1")>>))>>)), KV(m[1], m[2])>> : m \in Malformed \cup ValidPayloads}
       \cup {<<KV(SpecularName, O(<<KV("glossinessFactor", N("0"))>>)), KV(Transform, O(<<KV("offset", S("x"))>>)), KV(UnlitName, O(<<>>))>>,
             <<KV(LightsName, O(<<KV("light", N("1"))>>)), KV(SpecularName, S("x")), KV("ZZ", A(<<>>))>>}
Additions == {<<KV("extensions", O(l))>> : l \in One1 \cup Two}
             \cup {<<KV("extensions", O(<<KV("EXT_any", N("1"))>>)), KV("extras", e)>> : e \in Extra}
Add(j, a) == O(SelectSeq(j.o, LAMBDA e : e.key \notin {a[i].key : i \in DOMAIN a}) \o a)

(* ------------------------------------------------------------ values of properties in memory *)
OtherVals(p) ==
   CASE p.kind = "str" -> {S("x")}
     [] p.kind = "ver" -> {S("2.0"), S("2.1")}
     [] p.kind \in {"int", "optint"} -> {N("0"), N("7")}
     [] p.kind = "bool" -> {B(TRUE), B(FALSE)}
     [] p.kind \in {"num", "optnum"} -> {N("0"), N("1"), X("0.25")} \cup ({p.d} \ {Nil, Infinite})
     [] p.kind = "nums" -> {A(<<N("0")>>), A(<<N("0"), X("0.5"), N("-3")>>)}
     [] p.kind = "ints" -> {A(<<N("0")>>), A(<<N("5"), N("0"), N("1")>>)}
     [] p.kind = "strs" -> {A(<<S("KHR_b"), S("EXT_a")>>)}
     [] p.kind \in {"fix", "fixz", "optfix"} -> {p.d, Z(Len(p.d.a)), Vector(Len(p.d.a)), Nearly(p.d), Unit0(Len(p.d.a))}
     [] p.kind = "enum" -> {E(s) : s \in Symbols(p.of)}
     [] p.kind \in {"obj", "optobj"} -> {MinMem(p.of)}
     [] p.kind = "list" -> {A(<<MinMem(p.of)>>), A(<<MinMem(p.of), MinMem(p.of)>>)}
     [] p.kind = "attrs" -> {O(<<KV("NORMAL", N("0")), KV("POSITION", N("4")), KV("_X", N("2"))>>)}
     [] p.kind = "attrslist" -> {A(<<O(<<KV("POSITION", N("0"))>>), O(<<KV("NORMAL", N("0")), KV("TANGENT", N("3"))>>)>>)}
     [] p.kind = "any" -> Extra
     [] p.kind = "ext" -> {O(<<KV("EXT_a", [r |-> O(<<KV("k", N("1"))>>)]), KV("EXT_b", [r |-> Nil])>>)}
     [] OTHER -> {}
(* Numbers next to a default, and vectors with one: written like any others. *)
NextTo(d) ==
   CASE d = N("1") -> {X("1.0000000000000002"), X("0.9999999999999999"), X("1.000000001"), X("0.9999999")}
     [] d = N("0") -> {X("5e-324"), X("-5e-324"), X("0.000000001"), X("-0.0000001")}
     [] d = X("0.5") -> {X("0.5000000000000001"), X("0.49999999999999994"), X("0.500000001"), X("0.4999999")}
     [] d = QuarterPi -> {X("0.7853981633974484"), X("0.7853981633974482"), X("0.7853981634"), X("0.7853981"), X("0.7853981852531433")}
     [] d = Infinite -> {X("17976931348623157e292"), X("34028234663852886e22"), X("1e39")}
     [] OTHER -> {}
NearVals(p) ==
   CASE p.kind \in {"num", "optnum"} -> IF p.d = Nil THEN {} ELSE NextTo(p.d)
     [] p.kind \in {"fix", "fixz", "optfix"} ->
           UNION {{A([i \in DOMAIN p.d.a |-> IF i = k THEN v ELSE p.d.a[i]]) : v \in NextTo(p.d.a[k])} : k \in {1, Len(p.d.a)}}
     [] OTHER -> {}
Skipped(t, p) == (t = "Buffer" /\ p.go \in {"URI", "ByteLength"}) \/ p.go = ""
Props(t) == {p \in Range(Schema[t]) : ~Skipped(t, p)}
One(p) == CHOOSE v \in OtherVals(p) : v # p.d /\ (p.kind = "fixz" => ~AllZero(v)) /\ v # N("0")

(* Assignments: sequences of [p, v]. *)
Singles(t) == UNION {{<<[p |-> p, v |-> v]>> : v \in OtherVals(p) \cup NearVals(p)} : p \in Props(t)}
Pairs(t) == {<<[p |-> p, v |-> One(p)], [p |-> q, v |-> One(q)]>> : p \in Props(t), q \in Props(t)} 
RECURSIVE Product(_, _)
Product(ps, wide) == IF ps = <<>> THEN {<<>>}
               ELSE LET rest == Product(Tail(ps), wide) p == Head(ps)
                        vals == IF wide \/ Cardinality(OtherVals(p)) <= 3 THEN OtherVals(p)
                                ELSE {p.d, One(p)} \cup (IF p.kind \in {"fix", "fixz", "optfix"} THEN {Z(Len(p.d.a))} ELSE {}) IN
                    rest \cup UNION {{<<[p |-> p, v |-> v]>> \o r : v \in vals \ {Infinite}} : r \in rest}
Combos(t, wide) == Product(SelectSeq(Schema[t], LAMBDA p : p.def /\ ~Skipped(t, p)), wide)
Assignments(t, wide) == {<<>>} \cup Singles(t) \cup Pairs(t) \cup Combos(t, wide)

Mem(t, arg) ==
   LET Set(base, as) == [n \in GoFields(t) |-> LET m == {i \in DOMAIN as : as[i].p.go = n} IN IF m = {} THEN base[n] ELSE as[CHOOSE i \in m : TRUE].v]
   IN Only({[f |-> IF t = "Camera" /\ set.Perspective # Nil THEN [set EXCEPT !.Orthographic = Nil] ELSE set] :
               set \in {Set(base, as) : base \in {MinMem(t).f}, as \in {arg}}})
Plain(p, v) ==   \* the text of a value, even of a default
   CASE p.kind = "enum" -> CodeOf(p.of, v.e)
     [] p.kind \in {"obj", "optobj", "list", "ext"} -> LET w == WriteField(p, v) IN IF w = Nil THEN (IF p.kind = "list" THEN A(<<>>) ELSE O(<<>>)) ELSE w
     [] OTHER -> v
DataURI == S("data:application/octet-stream;base64,AQID")
TextOf(t, as, g) ==    \* the object with the chosen and the required properties
   LET chosen(p) == \E i \in DOMAIN as : as[i].p.go = p.go
       val(p) == IF p.kind = "camtype" THEN CameraType(g)
                 ELSE IF t = "Buffer" /\ p.kind = "uri" THEN DataURI
                 ELSE IF chosen(p) \/ p.req \/ (t = "Camera" /\ g.f[p.go] # Nil /\ p.kind = "optobj") THEN Plain(p, g.f[p.go]) ELSE Nil
       all == [i \in DOMAIN Schema[t] |-> KV(Schema[t][i].key, val(Schema[t][i]))]
   IN Only({O(SelectSeq(s, LAMBDA e : e.val # Nil)) : s \in {all}})
Text(t, arg) == Only({TextOf(t, as, g) : as \in {arg}, g \in {Mem(t, arg)}})

(* ------------------------------------------------------------ where objects are found *)
Place ==
  [Asset |-> <<"Document", "Asset">>, Accessor |-> <<"Document", "Accessors">>, Sparse |-> <<"Accessor", "Sparse">>, SparseIndices |-> <<"Sparse", "Indices">>,
   SparseValues |-> <<"Sparse", "Values">>, Buffer |-> <<"Document", "Buffers">>, BufferView |-> <<"Document", "BufferViews">>,
   Scene |-> <<"Document", "Scenes">>, Node |-> <<"Document", "Nodes">>, Skin |-> <<"Document", "Skins">>, Camera |-> <<"Document", "Cameras">>,
   Orthographic |-> <<"Camera", "Orthographic">>, Perspective |-> <<"Camera", "Perspective">>, Mesh |-> <<"Document", "Meshes">>,
   Primitive |-> <<"Mesh", "Primitives">>, Material |-> <<"Document", "Materials">>, NormalTexture |-> <<"Material", "NormalTexture">>,
   OcclusionTexture |-> <<"Material", "OcclusionTexture">>, PBRMetallicRoughness |-> <<"Material", "PBRMetallicRoughness">>,
   TextureInfo |-> <<"Material", "EmissiveTexture">>, Texture |-> <<"Document", "Textures">>, Sampler |-> <<"Document", "Samplers">>,
   Image |-> <<"Document", "Images">>, Animation |-> <<"Document", "Animations">>, AnimationSampler |-> <<"Animation", "Samplers">>,
   AnimationChannel |-> <<"Animation", "Channels">>, AnimationChannelTarget |-> <<"AnimationChannel", "Target">>,
   Light |-> <<"Document", "Extensions">>, Spot |-> <<"Light", "Spot">>, PBRSpecularGlossiness |-> <<"Material", "Extensions">>,
   TextureTranform |-> <<"TextureInfo", "Extensions">>]
ExtensionOf == [Light |-> LightsName, PBRSpecularGlossiness |-> SpecularName, TextureTranform |-> Transform]
As(v, t, go) == [p |-> PropOf(t, go), v |-> v]
PutKey(j, key, val) == O(SelectSeq(j.o, LAMBDA e : e.key # key) \o <<KV(key, val)>>)
RECURSIVE WrapMem(_, _), WrapText(_, _)
WrapMem(t, g) ==
   IF t = "Document" THEN g
   ELSE LET up == Place[t] p == PropOf(up[1], up[2])
            v == CASE p.kind = "list" -> A(<<g>>)
                   [] p.kind = "ext" -> O(<<KV(ExtensionOf[t], [g |-> ExtensionOf[t], v |-> IF t = "Light" THEN A(<<g>>) ELSE g])>>)
                   [] OTHER -> g
        IN Only({WrapMem(up[1], m) : m \in {Mem(up[1], <<[p |-> p, v |-> v]>>)}})
WrapText(t, j) ==
   IF t = "Document" THEN j
   ELSE LET up == Place[t] p == PropOf(up[1], up[2])
            v == CASE p.kind = "list" -> A(<<j>>)
                   [] p.kind = "ext" -> O(<<KV(ExtensionOf[t], IF t = "Light" THEN O(<<KV("lights", A(<<j>>))>>) ELSE j)>>)
                   [] OTHER -> j
            base == IF up[1] = "Camera" /\ t = "Perspective" THEN O(<<KV("type", S("perspective"))>>) ELSE Text(up[1], <<>>)
        IN Only({WrapText(up[1], PutKey(b, p.key, w)) : b \in {base}, w \in {v}})
=============================================================================
