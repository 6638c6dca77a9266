------------------------------- MODULE Schema -------------------------------
(* The objects of a document, the properties they have in the format and in memory, and
   what both representations mean.

   Values are records of one field, so that values of different kinds compare as unequal:
     [nil], [b: BOOLEAN], [n: integer as text], [x: other number as text], [s: text], [u: embedded data],
     [a: sequence], [o: sequence of [key, val], sorted by key].
   A value in memory may also be
     [f: record from field names to values] (struct), [e: symbol] (enumeration),
     [g: extension name, v: value] (typed extension payload), [r: JSON value] (payload left as it is).
   Numbers are canonical decimal texts, so equality of texts is equality of numbers.

   JDoc and GDoc map the JSON text and the document in memory to the same abstract object
   [t: type, f: sequence of property values]; the two are the meaning of a document.  With exact
   the properties are those that reading has to deliver; without, those that count: what was left
   unset is the default.                                                                          *)
EXTENDS Base

Nil == [nil |-> TRUE]
Bad == [bad |-> TRUE]
N(t) == [n |-> t]
X(t) == [x |-> t]
S(t) == [s |-> t]
B(b) == [b |-> b]
A(s) == [a |-> s]
O(s) == [o |-> s]
E(s) == [e |-> s]
KV(k, v) == [key |-> k, val |-> v]
(* Only({F(v) : v \in {arg}}) evaluates arg once. *)
Only(set) == CHOOSE r \in set : TRUE

(* ------------------------------------------------------------ enumerations *)
Codes ==
  [ComponentType |-> <<<<"BYTE", N("5120")>>, <<"UNSIGNED_BYTE", N("5121")>>, <<"SHORT", N("5122")>>, <<"UNSIGNED_SHORT", N("5123")>>,
                       <<"UNSIGNED_INT", N("5125")>>, <<"FLOAT", N("5126")>>>>,
   AccessorType |-> <<<<"SCALAR", S("SCALAR")>>, <<"VEC2", S("VEC2")>>, <<"VEC3", S("VEC3")>>, <<"VEC4", S("VEC4")>>,
                      <<"MAT2", S("MAT2")>>, <<"MAT3", S("MAT3")>>, <<"MAT4", S("MAT4")>>>>,
   Target |-> <<<<"ARRAY_BUFFER", N("34962")>>, <<"ELEMENT_ARRAY_BUFFER", N("34963")>>>>,
   PrimitiveMode |-> <<<<"POINTS", N("0")>>, <<"LINES", N("1")>>, <<"LINE_LOOP", N("2")>>, <<"LINE_STRIP", N("3")>>,
                       <<"TRIANGLES", N("4")>>, <<"TRIANGLE_STRIP", N("5")>>, <<"TRIANGLE_FAN", N("6")>>>>,
   AlphaMode |-> <<<<"OPAQUE", S("OPAQUE")>>, <<"MASK", S("MASK")>>, <<"BLEND", S("BLEND")>>>>,
   MagFilter |-> <<<<"NEAREST", N("9728")>>, <<"LINEAR", N("9729")>>>>,
   MinFilter |-> <<<<"NEAREST", N("9728")>>, <<"LINEAR", N("9729")>>, <<"NEAREST_MIPMAP_NEAREST", N("9984")>>,
                   <<"LINEAR_MIPMAP_NEAREST", N("9985")>>, <<"NEAREST_MIPMAP_LINEAR", N("9986")>>, <<"LINEAR_MIPMAP_LINEAR", N("9987")>>>>,
   WrappingMode |-> <<<<"CLAMP_TO_EDGE", N("33071")>>, <<"MIRRORED_REPEAT", N("33648")>>, <<"REPEAT", N("10497")>>>>,
   Interpolation |-> <<<<"LINEAR", S("LINEAR")>>, <<"STEP", S("STEP")>>, <<"CUBICSPLINE", S("CUBICSPLINE")>>>>,
   TRSProperty |-> <<<<"translation", S("translation")>>, <<"rotation", S("rotation")>>, <<"scale", S("scale")>>, <<"weights", S("weights")>>>>]
Enums == DOMAIN Codes
Symbols(en) == {Codes[en][i][1] : i \in DOMAIN Codes[en]}
CodeOf(en, sym) == Codes[en][CHOOSE i \in DOMAIN Codes[en] : Codes[en][i][1] = sym][2]
SymbolOf(en, code) == LET m == {i \in DOMAIN Codes[en] : Codes[en][i][2] = code} IN
                      IF m = {} THEN E("?") ELSE E(Codes[en][CHOOSE i \in m : TRUE][1])
(* Values in memory that say that nothing is set, where the format has no default. *)
Unset == [Target |-> "NONE", MagFilter |-> "UNDEFINED", MinFilter |-> "UNDEFINED"]
SizeOfComponent == [BYTE |-> 1, UNSIGNED_BYTE |-> 1, SHORT |-> 2, UNSIGNED_SHORT |-> 2, UNSIGNED_INT |-> 4, FLOAT |-> 4]
ComponentsOf == [SCALAR |-> 1, VEC2 |-> 2, VEC3 |-> 3, VEC4 |-> 4, MAT2 |-> 4, MAT3 |-> 9, MAT4 |-> 16]

(* ------------------------------------------------------------ the properties of every object *)
P(go, key, kind, of, d, def, req) == [go |-> go, key |-> key, kind |-> kind, of |-> of, d |-> d, def |-> def, req |-> req]
Str(go, key) == P(go, key, "str", "", S(""), FALSE, FALSE)
IntP(go, key) == P(go, key, "int", "", N("0"), FALSE, FALSE)
DefInt(go, key) == P(go, key, "int", "", N("0"), TRUE, FALSE)
ReqInt(go, key) == P(go, key, "int", "", N("0"), FALSE, TRUE)
OptInt(go, key) == P(go, key, "optint", "", Nil, FALSE, FALSE)
Flag(go, key) == P(go, key, "bool", "", B(FALSE), TRUE, FALSE)
ReqNum(go, key) == P(go, key, "num", "", N("0"), FALSE, TRUE)
DefNum(go, key, d) == P(go, key, "num", "", d, TRUE, FALSE)
OptNum(go, key) == P(go, key, "optnum", "", Nil, FALSE, FALSE)
DefOptNum(go, key, d) == P(go, key, "optnum", "", d, TRUE, FALSE)
Nums(go, key) == P(go, key, "nums", "", A(<<>>), FALSE, FALSE)
Ints(go, key, req) == P(go, key, "ints", "", A(<<>>), FALSE, req)
Strs(go, key) == P(go, key, "strs", "", A(<<>>), FALSE, FALSE)
Fix(go, key, d) == P(go, key, "fix", "", d, TRUE, FALSE)        \* array by value
FixZ(go, key, d) == P(go, key, "fixz", "", d, TRUE, FALSE)      \* all zeros count as unset
OptFix(go, key, d) == P(go, key, "optfix", "", d, TRUE, FALSE)
Enum(go, key, en, sym) == P(go, key, "enum", en, E(sym), sym \in Symbols(en), FALSE)
ReqEnum(go, key, en, sym) == P(go, key, "enum", en, E(sym), FALSE, TRUE)
Obj(go, key, t) == P(go, key, "obj", t, Nil, FALSE, TRUE)
OptObj(go, key, t) == P(go, key, "optobj", t, Nil, FALSE, FALSE)
List(go, key, t, req) == P(go, key, "list", t, A(<<>>), FALSE, req)
ExtP == P("Extensions", "extensions", "ext", "", O(<<>>), FALSE, FALSE)
ExtrasP == P("Extras", "extras", "any", "", Nil, FALSE, FALSE)
With(s) == <<ExtP, ExtrasP>> \o s

Z(n) == A([i \in 1..n |-> N("0")])
Ones(n) == A([i \in 1..n |-> N("1")])
Identity == A([i \in 1..16 |-> N(IF i \in {1, 6, 11, 16} THEN "1" ELSE "0")])
NoRotation == A(<<N("0"), N("0"), N("0"), N("1")>>)
QuarterPi == X("0.7853981633974483")
Infinite == X("+Inf")

Schema ==
  [Document |-> With(<<Strs("ExtensionsUsed", "extensionsUsed"), Strs("ExtensionsRequired", "extensionsRequired"),
      List("Accessors", "accessors", "Accessor", FALSE), List("Animations", "animations", "Animation", FALSE), Obj("Asset", "asset", "Asset"),
      List("Buffers", "buffers", "Buffer", FALSE), List("BufferViews", "bufferViews", "BufferView", FALSE), List("Cameras", "cameras", "Camera", FALSE),
      List("Images", "images", "Image", FALSE), List("Materials", "materials", "Material", FALSE), List("Meshes", "meshes", "Mesh", FALSE),
      List("Nodes", "nodes", "Node", FALSE), List("Samplers", "samplers", "Sampler", FALSE), OptInt("Scene", "scene"),
      List("Scenes", "scenes", "Scene", FALSE), List("Skins", "skins", "Skin", FALSE), List("Textures", "textures", "Texture", FALSE)>>),
   Asset |-> With(<<Str("Copyright", "copyright"), Str("Generator", "generator"), P("Version", "version", "ver", "", S("2.0"), TRUE, TRUE),
      Str("MinVersion", "minVersion")>>),
   Accessor |-> With(<<Str("Name", "name"), OptInt("BufferView", "bufferView"), DefInt("ByteOffset", "byteOffset"),
      ReqEnum("ComponentType", "componentType", "ComponentType", "FLOAT"), Flag("Normalized", "normalized"), ReqInt("Count", "count"),
      ReqEnum("Type", "type", "AccessorType", "SCALAR"), Nums("Max", "max"), Nums("Min", "min"), OptObj("Sparse", "sparse", "Sparse")>>),
   Sparse |-> With(<<ReqInt("Count", "count"), Obj("Indices", "indices", "SparseIndices"), Obj("Values", "values", "SparseValues")>>),
   SparseIndices |-> With(<<ReqInt("BufferView", "bufferView"), DefInt("ByteOffset", "byteOffset"),
      ReqEnum("ComponentType", "componentType", "ComponentType", "FLOAT")>>),
   SparseValues |-> With(<<ReqInt("BufferView", "bufferView"), DefInt("ByteOffset", "byteOffset")>>),
   Buffer |-> With(<<Str("Name", "name"), P("URI", "uri", "uri", "", S(""), FALSE, FALSE), ReqInt("ByteLength", "byteLength")>>),
   BufferView |-> With(<<ReqInt("Buffer", "buffer"), DefInt("ByteOffset", "byteOffset"), ReqInt("ByteLength", "byteLength"), IntP("ByteStride", "byteStride"),
      Enum("Target", "target", "Target", "NONE"), Str("Name", "name")>>),
   Scene |-> With(<<Str("Name", "name"), Ints("Nodes", "nodes", FALSE)>>),
   Node |-> With(<<Str("Name", "name"), OptInt("Camera", "camera"), Ints("Children", "children", FALSE), OptInt("Skin", "skin"), FixZ("Matrix", "matrix", Identity),
      OptInt("Mesh", "mesh"), FixZ("Rotation", "rotation", NoRotation), FixZ("Scale", "scale", Ones(3)), Fix("Translation", "translation", Z(3)),
      Nums("Weights", "weights")>>),
   Skin |-> With(<<Str("Name", "name"), OptInt("InverseBindMatrices", "inverseBindMatrices"), OptInt("Skeleton", "skeleton"), Ints("Joints", "joints", TRUE)>>),
   Camera |-> With(<<Str("Name", "name"), OptObj("Orthographic", "orthographic", "Orthographic"), OptObj("Perspective", "perspective", "Perspective"),
      P("", "type", "camtype", "", S(""), FALSE, TRUE)>>),
   Orthographic |-> With(<<ReqNum("Xmag", "xmag"), ReqNum("Ymag", "ymag"), ReqNum("Zfar", "zfar"), ReqNum("Znear", "znear")>>),
   Perspective |-> With(<<OptNum("AspectRatio", "aspectRatio"), ReqNum("Yfov", "yfov"), OptNum("Zfar", "zfar"), ReqNum("Znear", "znear")>>),
   Mesh |-> With(<<Str("Name", "name"), List("Primitives", "primitives", "Primitive", TRUE), Nums("Weights", "weights")>>),
   Primitive |-> With(<<P("Attributes", "attributes", "attrs", "", O(<<>>), FALSE, TRUE), OptInt("Indices", "indices"), OptInt("Material", "material"),
      Enum("Mode", "mode", "PrimitiveMode", "TRIANGLES"), P("Targets", "targets", "attrslist", "", A(<<>>), FALSE, FALSE)>>),
   Material |-> With(<<Str("Name", "name"), OptObj("PBRMetallicRoughness", "pbrMetallicRoughness", "PBRMetallicRoughness"),
      OptObj("NormalTexture", "normalTexture", "NormalTexture"), OptObj("OcclusionTexture", "occlusionTexture", "OcclusionTexture"),
      OptObj("EmissiveTexture", "emissiveTexture", "TextureInfo"), Fix("EmissiveFactor", "emissiveFactor", Z(3)),
      Enum("AlphaMode", "alphaMode", "AlphaMode", "OPAQUE"), DefOptNum("AlphaCutoff", "alphaCutoff", X("0.5")), Flag("DoubleSided", "doubleSided")>>),
   NormalTexture |-> With(<<OptInt("Index", "index"), DefInt("TexCoord", "texCoord"), DefOptNum("Scale", "scale", N("1"))>>),
   OcclusionTexture |-> With(<<OptInt("Index", "index"), DefInt("TexCoord", "texCoord"), DefOptNum("Strength", "strength", N("1"))>>),
   PBRMetallicRoughness |-> With(<<OptFix("BaseColorFactor", "baseColorFactor", Ones(4)), OptObj("BaseColorTexture", "baseColorTexture", "TextureInfo"),
      DefOptNum("MetallicFactor", "metallicFactor", N("1")), DefOptNum("RoughnessFactor", "roughnessFactor", N("1")),
      OptObj("MetallicRoughnessTexture", "metallicRoughnessTexture", "TextureInfo")>>),
   TextureInfo |-> With(<<ReqInt("Index", "index"), DefInt("TexCoord", "texCoord")>>),
   Texture |-> With(<<Str("Name", "name"), OptInt("Sampler", "sampler"), OptInt("Source", "source")>>),
   Sampler |-> With(<<Str("Name", "name"), Enum("MagFilter", "magFilter", "MagFilter", "UNDEFINED"), Enum("MinFilter", "minFilter", "MinFilter", "UNDEFINED"),
      Enum("WrapS", "wrapS", "WrappingMode", "REPEAT"), Enum("WrapT", "wrapT", "WrappingMode", "REPEAT")>>),
   Image |-> With(<<Str("Name", "name"), Str("URI", "uri"), Str("MimeType", "mimeType"), OptInt("BufferView", "bufferView")>>),
   Animation |-> With(<<Str("Name", "name"), List("Channels", "channels", "AnimationChannel", TRUE), List("Samplers", "samplers", "AnimationSampler", TRUE)>>),
   AnimationSampler |-> With(<<ReqInt("Input", "input"), Enum("Interpolation", "interpolation", "Interpolation", "LINEAR"), ReqInt("Output", "output")>>),
   AnimationChannel |-> With(<<ReqInt("Sampler", "sampler"), Obj("Target", "target", "AnimationChannelTarget")>>),
   AnimationChannelTarget |-> With(<<OptInt("Node", "node"), ReqEnum("Path", "path", "TRSProperty", "translation")>>),
   \* payloads of extensions
   Light |-> <<P("Type", "type", "str", "", S(""), FALSE, TRUE), Str("Name", "name"), OptFix("Color", "color", Ones(3)), DefOptNum("Intensity", "intensity", N("1")),
      DefOptNum("Range", "range", Infinite), OptObj("Spot", "spot", "Spot")>>,
   Spot |-> <<DefNum("InnerConeAngle", "innerConeAngle", N("0")), DefOptNum("OuterConeAngle", "outerConeAngle", QuarterPi)>>,
   PBRSpecularGlossiness |-> <<OptFix("DiffuseFactor", "diffuseFactor", Ones(4)), OptObj("DiffuseTexture", "diffuseTexture", "TextureInfo"),
      OptFix("SpecularFactor", "specularFactor", Ones(3)), DefOptNum("GlossinessFactor", "glossinessFactor", N("1")),
      OptObj("SpecularGlossinessTexture", "specularGlossinessTexture", "TextureInfo")>>,
   TextureTranform |-> <<Fix("Offset", "offset", Z(2)), DefNum("Rotation", "rotation", N("0")), FixZ("Scale", "scale", Ones(2)), OptInt("TexCoord", "texCoord")>>]

Types == DOMAIN Schema
Payloads == {"Light", "Spot", "PBRSpecularGlossiness", "TextureTranform"}
ExtPoints == Types \ Payloads
SpecularName == "KHR_materials_pbrSpecularGlossiness"
Transform == "KHR_texture_transform"
LightsName == "KHR_lights_punctual"
UnlitName == "KHR_materials_unlit"
Known == {SpecularName, Transform, LightsName, UnlitName}

(* ------------------------------------------------------------ types of JSON values *)
Is(v, k) == k \in DOMAIN v
IsNum(v) == Is(v, "n") \/ Is(v, "x")
AllZero(v) == \A i \in DOMAIN v.a : v.a[i] = N("0")
JGet(j, key) == LET m == {i \in DOMAIN j.o : j.o[i].key = key} IN IF m = {} THEN Nil ELSE j.o[CHOOSE i \in m : TRUE].val
AttrsTyped(v) == Is(v, "o") /\ \A i \in DOMAIN v.o : Is(v.o[i].val, "n")
Typed(p, v) ==     \* the value itself, not what it contains
   CASE p.kind \in {"str", "ver", "camtype"} -> Is(v, "s") \/ Is(v, "u")
     [] p.kind = "uri" -> Is(v, "s") \/ Is(v, "u")
     [] p.kind = "bool" -> Is(v, "b")
     [] p.kind \in {"int", "optint"} -> Is(v, "n")
     [] p.kind \in {"num", "optnum"} -> IsNum(v)
     [] p.kind = "nums" -> Is(v, "a") /\ \A i \in DOMAIN v.a : IsNum(v.a[i])
     [] p.kind = "ints" -> Is(v, "a") /\ \A i \in DOMAIN v.a : Is(v.a[i], "n")
     [] p.kind = "strs" -> Is(v, "a") /\ \A i \in DOMAIN v.a : Is(v.a[i], "s")
     [] p.kind \in {"fix", "fixz", "optfix"} -> Is(v, "a") /\ Len(v.a) = Len(p.d.a) /\ \A i \in DOMAIN v.a : IsNum(v.a[i])
     [] p.kind \in {"obj", "optobj", "ext"} -> Is(v, "o")
     [] p.kind = "list" -> Is(v, "a")
     [] p.kind = "attrs" -> AttrsTyped(v)
     [] p.kind = "attrslist" -> Is(v, "a") /\ \A i \in DOMAIN v.a : AttrsTyped(v.a[i])
     [] OTHER -> TRUE
RECURSIVE DeepTyped(_, _)
DeepTyped(t, j) ==
   Is(j, "o") /\ \A k \in DOMAIN Schema[t] :
      \E p \in {Schema[t][k]} : \E v \in {JGet(j, p.key)} :
      v = Nil \/ (Typed(p, v) /\ (p.kind = "optobj" => DeepTyped(p.of, v)))
(* Whether the handler of an extension accepts a payload. *)
Valid(name, j) ==
   Is(j, "o") /\
   CASE name = UnlitName -> TRUE
     [] name = SpecularName -> DeepTyped("PBRSpecularGlossiness", j)
     [] name = Transform -> DeepTyped("TextureTranform", j)
     [] name = LightsName -> \E i \in {JGet(j, "light")}, l \in {JGet(j, "lights")} :
          (i = Nil \/ Is(i, "n")) /\ (l = Nil \/ (Is(l, "a") /\ \A x \in Range(l.a) : DeepTyped("Light", x)))

(* ------------------------------------------------------------ meaning of the text *)
RECURSIVE JObj(_, _, _), JField(_, _, _), JValue(_, _, _), JExt(_, _), JPay(_, _, _), JPayload(_, _, _)
JField(p, arg, exact) == Only({JValue(p, v, exact) : v \in {arg}})
JValue(p, v, exact) ==
   IF v = Nil THEN IF p.kind = "obj" THEN JObj(p.of, O(<<>>), exact) ELSE p.d
   ELSE IF ~Typed(p, v) THEN Bad
   ELSE CASE p.kind \in {"uri"} -> IF Is(v, "u") THEN S("") ELSE v
          [] p.kind = "ver" -> IF v = S("") /\ ~exact THEN p.d ELSE v
          [] p.kind = "fixz" -> IF ~exact /\ AllZero(v) THEN p.d ELSE v
          [] p.kind = "enum" -> SymbolOf(p.of, v)
          [] p.kind \in {"obj", "optobj"} -> JObj(p.of, v, exact)
          [] p.kind = "list" -> A([i \in DOMAIN v.a |-> Only({JObj(p.of, x, exact) : x \in {v.a[i]}})])
          [] p.kind = "ext" -> JExt(v, exact)
          [] OTHER -> v
JObj(t, j, exact) == IF ~Is(j, "o") THEN Bad ELSE [t |-> t, f |-> [i \in DOMAIN Schema[t] |-> Only({JField(p, JGet(j, p.key), exact) : p \in {Schema[t][i]}})]]
JExt(v, exact) == O([i \in DOMAIN v.o |-> Only({KV(e.key, JPay(e.key, e.val, exact)) : e \in {v.o[i]}})])
JPay(name, arg, exact) == Only({JPayload(name, j, exact) : j \in {arg}})
JPayload(name, j, exact) ==
   IF name \notin Known THEN [r |-> j] ELSE IF ~Valid(name, j) THEN [r |-> j]
   ELSE [ty |-> name, v |->
      CASE name = UnlitName -> j
        [] name = SpecularName -> JObj("PBRSpecularGlossiness", j, exact)
        [] name = Transform -> JObj("TextureTranform", j, exact)
        [] name = LightsName -> IF JGet(j, "light") # Nil THEN [light |-> JGet(j, "light")]
                                ELSE Only({A(IF l = Nil THEN <<>> ELSE [i \in DOMAIN l.a |-> Only({JObj("Light", x, exact) : x \in {l.a[i]}})]) : l \in {JGet(j, "lights")}})]
JDoc(arg, exact) == Only({JObj("Document", j, exact) : j \in {arg}})

(* ------------------------------------------------------------ meaning of the document in memory *)
RECURSIVE GObj(_, _, _), GField(_, _, _), GValue(_, _, _), GExt(_, _), GPay(_, _, _), GPayload(_, _, _)
GField(p, arg, exact) == Only({GValue(p, v, exact) : v \in {arg}})
GValue(p, v, exact) ==
   IF v = Nil THEN IF exact /\ p.kind # "any" THEN Nil ELSE p.d
   ELSE CASE p.kind = "uri" -> IF Is(v, "u") THEN S("") ELSE v
          [] p.kind = "ver" -> IF v = S("") /\ ~exact THEN p.d ELSE v
          [] p.kind = "fixz" -> IF ~exact /\ AllZero(v) THEN p.d ELSE v
          [] p.kind \in {"obj", "optobj"} -> GObj(p.of, v, exact)
          [] p.kind = "list" -> A([i \in DOMAIN v.a |-> Only({GObj(p.of, x, exact) : x \in {v.a[i]}})])
          [] p.kind = "ext" -> GExt(v, exact)
          [] OTHER -> v
CameraType(g) == IF g.f.Perspective # Nil THEN S("perspective") ELSE IF g.f.Orthographic # Nil THEN S("orthographic") ELSE S("")
GObj(t, g, exact) ==
   IF ~Is(g, "f") THEN Bad
   ELSE [t |-> t, f |-> [i \in DOMAIN Schema[t] |-> Only({
           IF p.kind = "camtype" THEN CameraType(g) ELSE GField(p, g.f[p.go], exact) : p \in {Schema[t][i]}})]]
GExt(v, exact) == O([i \in DOMAIN v.o |-> Only({KV(e.key, GPay(e.key, e.val, exact)) : e \in {v.o[i]}})])
GPay(name, arg, exact) == Only({GPayload(name, x, exact) : x \in {arg}})
GPayload(name, x, exact) ==
   IF Is(x, "bad") THEN Bad
   ELSE IF Is(x, "r") THEN IF exact THEN x ELSE JPay(name, x.r, FALSE)
   ELSE [ty |-> x.g, v |->
      CASE x.g = UnlitName -> x.v
        [] x.g = SpecularName -> Only({GObj("PBRSpecularGlossiness", y, exact) : y \in {x.v}})
        [] x.g = Transform -> Only({GObj("TextureTranform", y, exact) : y \in {x.v}})
        [] x.g = LightsName -> IF Is(x.v, "n") THEN [light |-> x.v] ELSE A([i \in DOMAIN x.v.a |-> Only({GObj("Light", y, exact) : y \in {x.v.a[i]}})])]
GDoc(arg, exact) == Only({GObj("Document", g, exact) : g \in {arg}})

(* ------------------------------------------------------------ what the text has to spell out *)
(* Properties that the format requires of an object are in its text, also at values such as 0
   that could be taken for unset.  Empty lists are not legal where a list is required.        *)
Where(t, p) == t \o "." \o p.key
RECURSIVE Omitted(_, _), OmittedIn(_, _, _), OmittedExt(_)
Omitted(t, j) ==
   IF ~Is(j, "o") THEN {}
   ELSE UNION {UNION {UNION {OmittedIn(t, p, v) : v \in {JGet(j, p.key)}} : p \in {Schema[t][i]}} : i \in DOMAIN Schema[t]}
OmittedIn(t, p, v) ==
   IF v = Nil THEN IF p.req /\ p.kind \in {"int", "num", "enum", "ver", "obj"} THEN {<<"C01", Where(t, p)>>} ELSE {}
   ELSE CASE p.kind \in {"obj", "optobj"} -> Omitted(p.of, v)
          [] p.kind = "list" /\ Is(v, "a") -> UNION {UNION {Omitted(p.of, x) : x \in {v.a[i]}} : i \in DOMAIN v.a}
          [] p.kind = "ext" /\ Is(v, "o") -> UNION {UNION {OmittedExt(e) : e \in {v.o[i]}} : i \in DOMAIN v.o}
          [] OTHER -> {}
OmittedExt(e) ==
   IF ~Is(e.val, "o") THEN {}
   ELSE CASE e.key = SpecularName -> Omitted("PBRSpecularGlossiness", e.val)
          [] e.key = Transform -> Omitted("TextureTranform", e.val)
          [] e.key = LightsName -> UNION {IF Is(l, "a") THEN UNION {UNION {Omitted("Light", x) : x \in {l.a[i]}} : i \in DOMAIN l.a} ELSE {} : l \in {JGet(e.val, "lights")}}
          [] OTHER -> {}

(* ------------------------------------------------------------ differences, and whom they concern *)
Cats(p) == IF p.kind = "enum" THEN {"C03"} \cup (IF p.def THEN {"C02"} ELSE {}) ELSE IF p.def THEN {"C02"} ELSE IF p.kind = "any" THEN {"C22"} ELSE {}
RECURSIVE DiffObj(_, _, _), DiffField(_, _, _, _), DiffExt(_, _, _)
DiffObj(t, x, y) ==
   IF x = y THEN {}
   ELSE IF Is(x, "bad") \/ Is(y, "bad") THEN {<<"C01", t>>}
   ELSE UNION {UNION {DiffField(t, Schema[t][i], u, w) : u \in {x.f[i]}, w \in {y.f[i]}} : i \in DOMAIN Schema[t]}
DiffField(t, p, x, y) ==
   IF x = y THEN {}
   ELSE IF p.kind \in {"obj", "optobj"} /\ Is(x, "t") /\ Is(y, "t") THEN DiffObj(p.of, x, y)
   ELSE IF p.kind = "list" /\ Is(x, "a") /\ Is(y, "a") /\ Len(x.a) = Len(y.a) THEN UNION {UNION {DiffObj(p.of, u, w) : u \in {x.a[i]}, w \in {y.a[i]}} : i \in DOMAIN x.a}
   ELSE IF p.kind = "ext" /\ Is(x, "o") /\ Is(y, "o") THEN DiffExt(t, x, y)
   ELSE {<<c, Where(t, p)>> : c \in {"C01"} \cup Cats(p)}
DiffExt(t, x, y) ==
   IF [i \in DOMAIN x.o |-> x.o[i].key] # [i \in DOMAIN y.o |-> y.o[i].key] THEN {<<"C22", t \o " has other extensions">>, <<"C01", t \o ".extensions">>}
   ELSE UNION UNION {{IF u = w THEN {}
      ELSE {<<"C01", t \o ".extensions">>} \cup
           IF Is(u, "ty") /\ Is(w, "ty") THEN
             {<<"C23", x.o[i].key>>} \cup
             (IF Is(u.v, "t") /\ Is(w.v, "t") THEN DiffObj(u.v.t, u.v, w.v)
              ELSE IF Is(u.v, "a") /\ Is(w.v, "a") /\ Len(u.v.a) = Len(w.v.a) THEN UNION {DiffObj("Light", u.v.a[k], w.v.a[k]) : k \in DOMAIN u.v.a}
              ELSE {})
           ELSE IF Is(u, "ty") \/ Is(w, "ty") THEN {<<"C22", t \o ": " \o x.o[i].key \o " is not delivered to its handler">>, <<"C23", x.o[i].key>>}
           ELSE {<<"C22", t \o ": payload of an extension">>}
        : u \in {x.o[i].val}, w \in {y.o[i].val}} : i \in DOMAIN x.o}

(* ------------------------------------------------------------ the intended writer and reader (design) *)
RECURSIVE WriteObj(_, _), WriteField(_, _), WriteValue(_, _), WritePay(_), ReadObj(_, _), ReadField(_, _), ReadValue(_, _), ReadPay(_, _), ReadPayload(_, _)
WritePay(x) ==
   IF Is(x, "r") THEN x.r
   ELSE CASE x.g = UnlitName -> x.v
          [] x.g = SpecularName -> Only({WriteObj("PBRSpecularGlossiness", y) : y \in {x.v}})
          [] x.g = Transform -> Only({WriteObj("TextureTranform", y) : y \in {x.v}})
          [] x.g = LightsName -> IF Is(x.v, "n") THEN O(<<KV("light", x.v)>>)
                                 ELSE O(IF x.v.a = <<>> THEN <<>> ELSE <<KV("lights", A([i \in DOMAIN x.v.a |-> Only({WriteObj("Light", y) : y \in {x.v.a[i]}})]))>>)
WriteField(p, arg) == Only({WriteValue(p, v) : v \in {arg}})
WriteValue(p, v) ==    \* Nil: not written
   IF v = Nil THEN Nil
   ELSE CASE p.kind \in {"obj"} -> WriteObj(p.of, v)
          [] p.kind = "optobj" -> WriteObj(p.of, v)
          [] p.kind = "list" -> IF v.a = <<>> THEN Nil ELSE A([i \in DOMAIN v.a |-> Only({WriteObj(p.of, x) : x \in {v.a[i]}})])
          [] p.kind = "ext" -> IF v.o = <<>> THEN Nil ELSE O([i \in DOMAIN v.o |-> Only({KV(e.key, WritePay(e.val)) : e \in {v.o[i]}})])
          [] p.kind = "fixz" -> IF v = p.d \/ AllZero(v) THEN Nil ELSE v
          [] p.kind = "enum" -> IF v.e \in Symbols(p.of) /\ (v # p.d \/ p.req) THEN CodeOf(p.of, v.e) ELSE Nil
          [] p.kind = "ver" -> IF v = S("") THEN p.d ELSE v
          [] p.req -> v
          [] OTHER -> IF v = p.d THEN Nil ELSE v
WriteObj(t, g) ==
   LET val(p) == IF p.kind = "camtype" THEN CameraType(g) ELSE WriteField(p, g.f[p.go])
       all == [i \in DOMAIN Schema[t] |-> Only({KV(p.key, val(p)) : p \in {Schema[t][i]}})]
   IN Only({O(SelectSeq(s, LAMBDA e : e.val # Nil)) : s \in {all}})
ReadPay(name, arg) == Only({ReadPayload(name, j) : j \in {arg}})
ReadPayload(name, j) ==
   IF name \notin Known THEN [r |-> j] ELSE IF ~Valid(name, j) THEN [r |-> j]
   ELSE [g |-> name, v |->
      CASE name = UnlitName -> j
        [] name = SpecularName -> ReadObj("PBRSpecularGlossiness", j)
        [] name = Transform -> ReadObj("TextureTranform", j)
        [] name = LightsName -> IF JGet(j, "light") # Nil THEN JGet(j, "light")
                                ELSE Only({A(IF l = Nil THEN <<>> ELSE [i \in DOMAIN l.a |-> Only({ReadObj("Light", x) : x \in {l.a[i]}})]) : l \in {JGet(j, "lights")}})]
ReadField(p, arg) == Only({ReadValue(p, v) : v \in {arg}})
ReadValue(p, v) ==
   IF v = Nil THEN IF p.kind = "obj" THEN ReadObj(p.of, O(<<>>)) ELSE p.d
   ELSE CASE p.kind \in {"obj", "optobj"} -> ReadObj(p.of, v)
          [] p.kind = "list" -> A([i \in DOMAIN v.a |-> Only({ReadObj(p.of, x) : x \in {v.a[i]}})])
          [] p.kind = "ext" -> O([i \in DOMAIN v.o |-> Only({KV(e.key, ReadPay(e.key, e.val)) : e \in {v.o[i]}})])
          [] p.kind = "enum" -> SymbolOf(p.of, v)
          [] OTHER -> v
GoFields(t) == {Schema[t][i].go : i \in DOMAIN Schema[t]} \ {""}
PropOf(t, go) == Schema[t][CHOOSE i \in DOMAIN Schema[t] : Schema[t][i].go = go]
ReadObj(t, j) == [f |-> [n \in GoFields(t) |-> Only({ReadField(p, JGet(j, p.key)) : p \in {PropOf(t, n)}})]]
=============================================================================
