package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
)

// The names of the extensions in the format; the library has its own constants for them.
const (
	extLights    = "KHR_lights_punctual"
	extSpecular  = "KHR_materials_pbrSpecularGlossiness"
	extTransform = "KHR_texture_transform"
	extUnlit     = "KHR_materials_unlit"
)

// Values of documents, in memory and as JSON text, as the trees of spec/Schema.tla.

var symbols = map[reflect.Type]map[string]int64{
	reflect.TypeOf(gltf.ComponentFloat): {"BYTE": int64(gltf.ComponentByte), "UNSIGNED_BYTE": int64(gltf.ComponentUbyte), "SHORT": int64(gltf.ComponentShort),
		"UNSIGNED_SHORT": int64(gltf.ComponentUshort), "UNSIGNED_INT": int64(gltf.ComponentUint), "FLOAT": int64(gltf.ComponentFloat)},
	reflect.TypeOf(gltf.AccessorScalar): {"SCALAR": int64(gltf.AccessorScalar), "VEC2": int64(gltf.AccessorVec2), "VEC3": int64(gltf.AccessorVec3),
		"VEC4": int64(gltf.AccessorVec4), "MAT2": int64(gltf.AccessorMat2), "MAT3": int64(gltf.AccessorMat3), "MAT4": int64(gltf.AccessorMat4)},
	reflect.TypeOf(gltf.TargetNone): {"NONE": int64(gltf.TargetNone), "ARRAY_BUFFER": int64(gltf.TargetArrayBuffer), "ELEMENT_ARRAY_BUFFER": int64(gltf.TargetElementArrayBuffer)},
	reflect.TypeOf(gltf.PrimitivePoints): {"POINTS": int64(gltf.PrimitivePoints), "LINES": int64(gltf.PrimitiveLines), "LINE_LOOP": int64(gltf.PrimitiveLineLoop),
		"LINE_STRIP": int64(gltf.PrimitiveLineStrip), "TRIANGLES": int64(gltf.PrimitiveTriangles), "TRIANGLE_STRIP": int64(gltf.PrimitiveTriangleStrip),
		"TRIANGLE_FAN": int64(gltf.PrimitiveTriangleFan)},
	reflect.TypeOf(gltf.AlphaOpaque):  {"OPAQUE": int64(gltf.AlphaOpaque), "MASK": int64(gltf.AlphaMask), "BLEND": int64(gltf.AlphaBlend)},
	reflect.TypeOf(gltf.MagUndefined): {"UNDEFINED": int64(gltf.MagUndefined), "NEAREST": int64(gltf.MagNearest), "LINEAR": int64(gltf.MagLinear)},
	reflect.TypeOf(gltf.MinUndefined): {"UNDEFINED": int64(gltf.MinUndefined), "NEAREST": int64(gltf.MinNearest), "LINEAR": int64(gltf.MinLinear),
		"NEAREST_MIPMAP_NEAREST": int64(gltf.MinNearestMipMapNearest), "LINEAR_MIPMAP_NEAREST": int64(gltf.MinLinearMipMapNearest),
		"NEAREST_MIPMAP_LINEAR": int64(gltf.MinNearestMipMapLinear), "LINEAR_MIPMAP_LINEAR": int64(gltf.MinLinearMipMapLinear)},
	reflect.TypeOf(gltf.WrapRepeat): {"REPEAT": int64(gltf.WrapRepeat), "CLAMP_TO_EDGE": int64(gltf.WrapClampToEdge), "MIRRORED_REPEAT": int64(gltf.WrapMirroredRepeat)},
	reflect.TypeOf(gltf.InterpolationLinear): {"LINEAR": int64(gltf.InterpolationLinear), "STEP": int64(gltf.InterpolationStep),
		"CUBICSPLINE": int64(gltf.InterpolationCubicSpline)},
	reflect.TypeOf(gltf.TRSTranslation): {"translation": int64(gltf.TRSTranslation), "rotation": int64(gltf.TRSRotation), "scale": int64(gltf.TRSScale),
		"weights": int64(gltf.TRSWeights)},
}

func enumInt(v reflect.Value) int64 {
	if v.CanInt() {
		return v.Int()
	}
	return int64(v.Uint())
}

func setEnum(v reflect.Value, sym string) {
	c, ok := symbols[v.Type()][sym]
	if !ok {
		check(fmt.Errorf("no %s %s", v.Type(), sym))
	}
	if v.CanInt() {
		v.SetInt(c)
	} else {
		v.SetUint(uint64(c))
	}
}

func symbolOf(v reflect.Value) string {
	for s, c := range symbols[v.Type()] {
		if c == enumInt(v) {
			return s
		}
	}
	return "?"
}

// text writes a string with letters, digits and some punctuation as they are and everything else by its code.
func text(s string) string {
	if len(s) > 6000 { // abridged
		return text(s[:20]) + "%" + strconv.Itoa(len(s)) + ";" + digestOf(s)
	}
	var b strings.Builder
	for i, c := range s {
		switch {
		case c == '\ufffd' && s[i] != 0xef:
			fmt.Fprintf(&b, "%%!%02x;", s[i])
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', strings.ContainsRune("_-./:;,+=", c):
			b.WriteRune(c)
		default:
			fmt.Fprintf(&b, "%%%x;", c)
		}
	}
	return b.String()
}

// decimal gives the value of a decimal text a unique form.
func decimal(s string) (canon string, integer bool) {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	exp := 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		exp, _ = strconv.Atoi(s[i+1:])
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		exp -= len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	s = strings.TrimLeft(s, "0")
	for strings.HasSuffix(s, "0") {
		s = s[:len(s)-1]
		exp++
	}
	if s == "" {
		return "0", true
	}
	sign := ""
	if neg {
		sign = "-"
	}
	switch {
	case exp >= 0 && len(s)+exp <= 30:
		return sign + s + strings.Repeat("0", exp), true
	case exp < 0 && exp > -30:
		if len(s) <= -exp {
			s = strings.Repeat("0", -exp-len(s)+1) + s
		}
		return sign + s[:len(s)+exp] + "." + s[len(s)+exp:], false
	}
	return sign + s + "e" + strconv.Itoa(exp), false
}

func numTree(s string) M {
	c, i := decimal(s)
	if i {
		return M{"n": c}
	}
	return M{"x": c}
}

func floatTree(f float64) M {
	if math.IsInf(f, 1) {
		return M{"x": "+Inf"}
	}
	if math.IsInf(f, -1) || math.IsNaN(f) {
		return M{"x": "?"}
	}
	return numTree(strconv.FormatFloat(f, 'e', -1, 64))
}

func stringTree(s string) M {
	if strings.HasPrefix(s, "data:application/octet-stream;base64") {
		return M{"u": text(s)}
	}
	return M{"s": text(s)}
}

func pairs(m map[string]any) []M {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return text(keys[i]) < text(keys[j]) })
	return list(len(keys), func(i int) M { return M{"key": text(keys[i]), "val": m[keys[i]]} })
}

// abridged says which elements of a list are shown: if there are many, only some of them, at positions
// that depend on the length.
func abridged(n int) (at []int) {
	const most, shown = 500, 100
	for i := 0; i < n && n <= most; i++ {
		at = append(at, i)
	}
	for i := 0; i < shown && n > most; i++ {
		at = append(at, i*(n-1)/(shown-1))
	}
	return
}

func list(n int, f func(i int) M) []M {
	l := []M{}
	for _, i := range abridged(n) {
		l = append(l, f(i))
	}
	return l
}

func valueTree(v any) M {
	switch v := v.(type) {
	case nil:
		return M{"nil": true}
	case bool:
		return M{"b": v}
	case json.Number:
		return numTree(string(v))
	case string:
		return stringTree(v)
	case []any:
		return M{"a": list(len(v), func(i int) M { return valueTree(v[i]) })}
	case map[string]any:
		m := map[string]any{}
		for k, x := range v {
			m[k] = valueTree(x)
		}
		return M{"o": pairs(m)}
	}
	return M{"bad": true}
}

// jsonTree is the tree of a JSON text; all of it, apart from white space at the end.
func jsonTree(b []byte) M {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil || len(bytes.TrimSpace(b[d.InputOffset():])) > 0 {
		return M{"bad": true}
	}
	t, _ := shallow(valueTree(v))
	return t
}

// nullsOf lists the properties of the format that are null in the text.  Lists that the format
// requires, but the document does not have, are not among them, nor is what the format does not define.
func nullsOf(b []byte) []string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return []string{}
	}
	found := map[string]bool{}
	var walk func(v any)
	walk = func(v any) {
		switch v := v.(type) {
		case []any:
			for _, x := range v {
				walk(x)
			}
		case map[string]any:
			for k, x := range v {
				switch k {
				case "extras", "extensions":
					continue
				case "joints", "primitives", "attributes", "channels", "samplers":
				default:
					if x == nil {
						found[k] = true
					}
				}
				walk(x)
			}
		}
	}
	walk(v)
	l := []string{}
	for k := range found {
		l = append(l, ascii(k))
	}
	sort.Strings(l)
	return l
}

// payloadNulls lists the properties that are null in the payloads of the built-in extensions.
func payloadNulls(v reflect.Value) []string {
	l := []string{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			if k := v.Type().Elem().Kind(); k == reflect.Pointer || k == reflect.Struct {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		case reflect.Map:
			if x, ok := v.Interface().(gltf.Extensions); ok {
				for _, y := range x {
					switch y.(type) {
					case *specular.PBRSpecularGlossiness, *texturetransform.TextureTranform, *lightspunctual.Lights, lightspunctual.Lights:
						b, err := json.Marshal(y)
						if err == nil {
							l = append(l, nullsOf(b)...)
						}
						walk(reflect.ValueOf(y))
					}
				}
			}
		}
	}
	walk(v)
	sort.Strings(l)
	return l
}

// shallow gives the parts of a tree that are of a certain height as digests; the tree is of less height then.
func shallow(t M) (M, int) {
	const most = 30
	h := 0
	part := func(x M) M {
		x, n := shallow(x)
		if h <= n {
			h = n + 1
		}
		return x
	}
	if l, ok := t["a"].([]M); ok {
		for i := range l {
			l[i] = part(l[i])
		}
	}
	if l, ok := t["o"].([]M); ok {
		for i := range l {
			l[i]["val"] = part(l[i]["val"].(M))
		}
	}
	if h == most {
		b, err := json.Marshal(t)
		check(err)
		return M{"s": "high" + digestOf(string(b))}, 0
	}
	return t, h
}

// anyTree is the tree of a value by its standard JSON text.
func anyTree(v any) M {
	b, err := json.Marshal(v)
	if err != nil {
		return M{"bad": true}
	}
	return jsonTree(b)
}

// payloadTree shows the payload of an extension; strictly, only as the decoder gives it.
func payloadTree(name string, v any, strict bool) M {
	var x M
	typ := ""
	switch p := v.(type) {
	case *specular.PBRSpecularGlossiness:
		if p == nil {
			return M{"bad": true}
		}
		typ, x = extSpecular, memTree(reflect.ValueOf(*p), strict)
	case *texturetransform.TextureTranform:
		if p == nil {
			return M{"bad": true}
		}
		typ, x = extTransform, memTree(reflect.ValueOf(*p), strict)
	case lightspunctual.Lights:
		typ, x = extLights, memTree(reflect.ValueOf(p), strict)
	case lightspunctual.LightIndex:
		typ, x = extLights, M{"n": strconv.Itoa(int(p))}
	case *unlit.Unlit:
		if p == nil {
			return M{"bad": true}
		}
		typ, x = extUnlit, anyTree(map[string]any(*p))
	case json.RawMessage:
		return M{"r": jsonTree(p)}
	default:
		if strict {
			return M{"bad": true}
		}
		switch p := v.(type) {
		case specular.PBRSpecularGlossiness:
			typ, x = extSpecular, memTree(reflect.ValueOf(p), strict)
		case texturetransform.TextureTranform:
			typ, x = extTransform, memTree(reflect.ValueOf(p), strict)
		case *lightspunctual.Lights:
			typ, x = extLights, memTree(reflect.ValueOf(*p), strict)
		case *lightspunctual.LightIndex:
			typ, x = extLights, M{"n": strconv.Itoa(int(*p))}
		case unlit.Unlit:
			typ, x = extUnlit, anyTree(map[string]any(p))
		default:
			return M{"r": anyTree(p)}
		}
	}
	if typ != name {
		return M{"bad": true}
	}
	return M{"g": typ, "v": x}
}

// memTree is the tree of a value in memory.
func memTree(v reflect.Value, strict bool) M {
	t := v.Type()
	if _, ok := symbols[t]; ok {
		return M{"e": symbolOf(v)}
	}
	if t == reflect.TypeOf(gltf.Extensions{}) {
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[k.String()] = payloadTree(k.String(), v.MapIndex(k).Interface(), strict)
		}
		return M{"o": pairs(m)}
	}
	switch v.Kind() {
	case reflect.Interface:
		return anyTree(v.Interface())
	case reflect.Pointer:
		if v.IsNil() {
			return M{"nil": true}
		}
		return memTree(v.Elem(), strict)
	case reflect.Struct:
		m := M{}
		for i := 0; i < t.NumField(); i++ {
			if n := t.Field(i).Name; n != "Data" {
				m[n] = memTree(v.Field(i), strict)
			}
		}
		return M{"f": m}
	case reflect.Slice, reflect.Array:
		return M{"a": list(v.Len(), func(i int) M { return memTree(v.Index(i), strict) })}
	case reflect.Map:
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[k.String()] = memTree(v.MapIndex(k), strict)
		}
		return M{"o": pairs(m)}
	case reflect.String:
		return stringTree(v.String())
	case reflect.Bool:
		return M{"b": v.Bool()}
	case reflect.Float64:
		return floatTree(v.Float())
	case reflect.Int:
		return M{"n": strconv.FormatInt(v.Int(), 10)}
	}
	return M{"bad": true}
}

// ---------------------------------------------------------------- and back

// render writes the JSON text of a tree; with r, in some other order and spacing.
func render(b *bytes.Buffer, t map[string]any, r *rand.Rand) {
	space := func() {
		if r != nil && r.Intn(4) == 0 {
			b.WriteString(pick(r, " ", "\n", "\t ", "\r\n"))
		}
	}
	for k, v := range t {
		switch k {
		case "nil":
			b.WriteString("null")
		case "b":
			fmt.Fprint(b, v)
		case "n", "x":
			s := v.(string)
			if k == "x" && r != nil && r.Intn(8) == 0 && !strings.Contains(s, "e") {
				s += "0"
			}
			b.WriteString(s)
		case "s", "u":
			b.Write(quoted(v, r))
		case "a":
			b.WriteByte('[')
			for i, x := range v.([]any) {
				if i > 0 {
					b.WriteByte(',')
				}
				space()
				render(b, x.(map[string]any), r)
				space()
			}
			b.WriteByte(']')
		case "o":
			l := append([]any(nil), v.([]any)...)
			if r != nil {
				r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			}
			b.WriteByte('{')
			for i, x := range l {
				if i > 0 {
					b.WriteByte(',')
				}
				space()
				kv := x.(map[string]any)
				b.Write(quoted(kv["key"], r))
				space()
				b.WriteByte(':')
				space()
				render(b, kv["val"].(map[string]any), r)
				space()
			}
			b.WriteByte('}')
		default:
			check(fmt.Errorf("cannot render %s", k))
		}
	}
}

// quoted spells a string as JSON text, now and then with escape sequences that are not necessary.
func quoted(v any, r *rand.Rand) []byte {
	j, _ := json.Marshal(v)
	if r == nil || r.Intn(6) > 0 || bytes.IndexByte(j, '\\') >= 0 {
		return j
	}
	var b []byte
	for _, c := range j {
		switch {
		case c == '/' && r.Intn(2) == 0:
			b = append(b, '\\', c)
		case c >= ' ' && c < 127 && c != '"' && r.Intn(4) == 0:
			b = append(b, fmt.Sprintf(pick(r, `\u%04x`, `\u%04X`), c)...)
		default:
			b = append(b, c)
		}
	}
	return b
}

func rendered(t map[string]any, r *rand.Rand) []byte {
	var b bytes.Buffer
	render(&b, t, r)
	return b.Bytes()
}

func buildPayload(name string, t map[string]any) any {
	if x, ok := t["r"]; ok {
		return json.RawMessage(rendered(x.(map[string]any), nil))
	}
	v := t["v"].(map[string]any)
	switch t["g"] {
	case extSpecular:
		p := new(specular.PBRSpecularGlossiness)
		build(reflect.ValueOf(p).Elem(), v)
		return p
	case extTransform:
		p := new(texturetransform.TextureTranform)
		build(reflect.ValueOf(p).Elem(), v)
		return p
	case extLights:
		var p lightspunctual.Lights
		build(reflect.ValueOf(&p).Elem(), v)
		return p
	}
	check(fmt.Errorf("cannot build payload of %s", name))
	return nil
}

// build sets v to the value of the tree.
func build(v reflect.Value, t map[string]any) {
	if _, ok := symbols[v.Type()]; ok {
		setEnum(v, t["e"].(string))
		return
	}
	if _, ok := t["nil"]; ok {
		return
	}
	if v.Type() == reflect.TypeOf(gltf.Extensions{}) {
		l := t["o"].([]any)
		if len(l) > 0 {
			e := gltf.Extensions{}
			for _, x := range l {
				kv := x.(map[string]any)
				e[kv["key"].(string)] = buildPayload(kv["key"].(string), kv["val"].(map[string]any))
			}
			v.Set(reflect.ValueOf(e))
		}
		return
	}
	num := func() float64 {
		s, ok := t["n"]
		if !ok {
			s = t["x"]
		}
		f, err := strconv.ParseFloat(s.(string), 64)
		check(err)
		return f
	}
	switch v.Kind() {
	case reflect.Interface:
		var x any
		check(json.Unmarshal(rendered(t, nil), &x))
		v.Set(reflect.ValueOf(x))
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		build(v.Elem(), t)
	case reflect.Struct:
		for n, x := range t["f"].(map[string]any) {
			build(v.FieldByName(n), x.(map[string]any))
		}
	case reflect.Slice:
		l := t["a"].([]any)
		if len(l) > 0 {
			v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		}
		for i, x := range l {
			build(v.Index(i), x.(map[string]any))
		}
	case reflect.Array:
		for i, x := range t["a"].([]any) {
			build(v.Index(i), x.(map[string]any))
		}
	case reflect.Map:
		l := t["o"].([]any)
		if len(l) > 0 {
			v.Set(reflect.MakeMap(v.Type()))
		}
		for _, x := range l {
			kv := x.(map[string]any)
			e := reflect.New(v.Type().Elem()).Elem()
			build(e, kv["val"].(map[string]any))
			v.SetMapIndex(reflect.ValueOf(kv["key"]), e)
		}
	case reflect.String:
		v.SetString(t["s"].(string))
	case reflect.Bool:
		v.SetBool(t["b"].(bool))
	case reflect.Float64:
		v.SetFloat(num())
	case reflect.Int:
		v.SetInt(int64(num()))
	default:
		check(fmt.Errorf("cannot build %s", v.Type()))
	}
}
