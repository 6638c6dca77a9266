package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
)

func init() { drivers["schema"] = schema }

// ---------------------------------------------------------------- random documents

type docGen struct {
	r     *rand.Rand
	depth int
	dense float64 // how likely properties are set
}

func (g *docGen) yes() bool { return g.r.Float64() < g.dense }

// nextTo is a number hard to tell from d.
func nextTo(r *rand.Rand, d float64) float64 {
	switch r.Intn(4) {
	case 0:
		return math.Nextafter(d, pick(r, math.Inf(1), math.Inf(-1)))
	case 1:
		return d + pick(r, 1e-7, -1e-7, 1e-9, -1e-9, 1e-12, -1e-12, 1e-15)
	case 2:
		return d + float64(r.Intn(200)-100)/100000
	}
	return float64(math.Nextafter32(float32(d), pick(r, float32(2), -2)))
}

func randFloat(r *rand.Rand) float64 {
	switch r.Intn(11) {
	case 10:
		return nextTo(r, pick(r, 0, 1, 0.5, math.Pi/4, -1))
	case 0, 1:
		return 0
	case 2, 3:
		return 1
	case 4:
		return pick(r, 0.5, math.Pi/4, -1, 0.25, math.Copysign(0, -1))
	case 5:
		return float64(r.Intn(2000) - 1000)
	case 6:
		return pick(r, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1e-7, 1e20, 123456789012345680, 0.1, 1.0/3)
	case 7:
		return float64(float32(r.NormFloat64()))
	}
	return r.NormFloat64() * math.Pow(10, float64(r.Intn(40)-20))
}

func randInt(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0, 1:
		return 0
	case 2, 3:
		return r.Intn(4)
	case 4:
		return r.Intn(100000)
	}
	return pick(r, math.MaxInt64, math.MaxInt32, 1<<53, 1<<53+1, -1)
}

func randAny(r *rand.Rand, depth int) any {
	switch n := r.Intn(9); {
	case n == 0:
		return randText(r, r.Intn(6))
	case n == 1:
		return randFloat(r)
	case n == 2:
		return r.Intn(2) == 0
	case n == 3:
		return pick[any](r, 7, int64(-3), uint8(0), float32(0.5), json.Number("12.50"), json.RawMessage(` {"k" : [1, null]} `), struct{ A, B int }{1, 0}, []int{}, map[string]int{})
	case n == 4 && depth > 0:
		return nil
	case n < 7 && depth < 3:
		m := map[string]any{}
		for i := r.Intn(4); i > 0; i-- {
			m[pick(r, "extras", "extensions", "name", randText(r, r.Intn(5)))] = randAny(r, depth+1)
		}
		return m
	case depth < 3:
		l := []any{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, randAny(r, depth+1))
		}
		return l
	}
	return ""
}

func (g *docGen) payload() (string, any) {
	r := g.r
	switch r.Intn(8) {
	case 0:
		p := specular.PBRSpecularGlossiness{}
		g.fill(reflect.ValueOf(&p).Elem())
		if r.Intn(5) == 0 {
			return specular.ExtensionName, p
		}
		return specular.ExtensionName, &p
	case 1:
		p := texturetransform.TextureTranform{}
		g.fill(reflect.ValueOf(&p).Elem())
		if r.Intn(5) == 0 {
			return texturetransform.ExtensionName, p
		}
		return texturetransform.ExtensionName, &p
	case 2:
		p := lightspunctual.Lights{}
		for i := r.Intn(3); i > 0; i-- {
			l := &lightspunctual.Light{}
			g.fill(reflect.ValueOf(l).Elem())
			if r.Intn(3) == 0 {
				l.Range = gltf.Float(math.Inf(1))
			}
			p = append(p, l)
		}
		if r.Intn(5) == 0 {
			return lightspunctual.ExtensionName, &p
		}
		return lightspunctual.ExtensionName, p
	case 3:
		return lightspunctual.ExtensionName, lightspunctual.LightIndex(randInt(r))
	case 4:
		p := unlit.Unlit{}
		for i := r.Intn(3); i > 0; i-- {
			p[randText(r, 1+r.Intn(3))] = randAny(r, 1)
		}
		if r.Intn(2) == 0 {
			return unlit.ExtensionName, p
		}
		return unlit.ExtensionName, &p
	case 5: // what a handler refused
		return pick(r, specular.ExtensionName, texturetransform.ExtensionName, lightspunctual.ExtensionName, unlit.ExtensionName),
			json.RawMessage(pick(r, `"text"`, ` [ 1 ]`, `12`, `true`))
	case 6:
		return pick(r, "EXT_x", "KHR_y", "MSFT_z", randText(r, 1+r.Intn(4))), json.RawMessage(rendered(anyToTree(randAny(r, 0)), nil))
	}
	return pick(r, "EXT_x", "KHR_y", "VENDOR_w"), randAny(r, 0)
}

// anyToTree is the tree of a value in the form that render takes.
func anyToTree(v any) map[string]any {
	b, err := json.Marshal(v)
	check(err)
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x any
	check(d.Decode(&x))
	return rawTree(x)
}

func rawTree(x any) map[string]any {
	switch x := x.(type) {
	case nil:
		return map[string]any{"nil": true}
	case bool:
		return map[string]any{"b": x}
	case json.Number:
		return map[string]any{"n": string(x)}
	case string:
		return map[string]any{"s": x}
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = rawTree(x[i])
		}
		return map[string]any{"a": l}
	case map[string]any:
		l, keys := []any{}, []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			l = append(l, map[string]any{"key": k, "val": rawTree(x[k])})
		}
		return map[string]any{"o": l}
	}
	return nil
}

func (g *docGen) fill(v reflect.Value) {
	r := g.r
	t := v.Type()
	if s, ok := symbols[t]; ok {
		var l []string
		for k := range s {
			l = append(l, k)
		}
		sortStrings(l)
		setEnum(v, pick(r, l...))
		return
	}
	switch t {
	case reflect.TypeOf(gltf.Extensions{}):
		if g.depth < 8 && r.Float64() < g.dense/2 {
			e := gltf.Extensions{}
			for i := r.Intn(4); i > 0; i-- {
				k, p := g.payload()
				e[k] = p
			}
			v.Set(reflect.ValueOf(e))
		}
		return
	case reflect.TypeOf(gltf.Camera{}):
		c := v.Addr().Interface().(*gltf.Camera)
		c.Name = randText(r, r.Intn(3))
		g.fill(reflect.ValueOf(&c.Extensions).Elem())
		g.fill(reflect.ValueOf(&c.Extras).Elem())
		if r.Intn(2) == 0 {
			c.Perspective = &gltf.Perspective{}
			g.fill(reflect.ValueOf(c.Perspective).Elem())
		} else {
			c.Orthographic = &gltf.Orthographic{}
			g.fill(reflect.ValueOf(c.Orthographic).Elem())
		}
		return
	case reflect.TypeOf(gltf.Buffer{}):
		b := v.Addr().Interface().(*gltf.Buffer)
		b.Name = randText(r, r.Intn(3))
		g.fill(reflect.ValueOf(&b.Extensions).Elem())
		g.fill(reflect.ValueOf(&b.Extras).Elem())
		b.Data = randBytes(r, 1+r.Intn(9))
		b.ByteLength = len(b.Data)
		switch r.Intn(3) {
		case 0:
			b.EmbeddedResource()
		case 1:
			b.URI = fmt.Sprintf("schema%d.bin", r.Intn(1000000))
		}
		return
	}
	g.depth++
	defer func() {
		g.depth--
		if im, ok := v.Addr().Interface().(*gltf.Image); ok {
			// The decoder gives other URIs a normal form.
			im.URI = pick(r, "", "", "tex.png", "dir/日 <x>.png", "a/../b.jpg", "http://host/a/b.png?q=1", "data:image/png;base64,AQID", "data:image/jpeg;base64,AA==",
				"data:image/webp;base64,AAAA", "data:application/octet-stream;base64,AQI=", "data:image/png;base64,%zz", "//host/x.png", "x%zz.png")
		}
	}()
	switch v.Kind() {
	case reflect.Interface:
		if r.Float64() < g.dense/2 {
			if x := randAny(r, 0); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		}
	case reflect.Pointer:
		if g.yes() {
			v.Set(reflect.New(t.Elem()))
			g.fill(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if k := t.Field(i).Type.Kind(); k == reflect.Struct || g.yes() {
				g.fill(v.Field(i))
			}
		}
	case reflect.Slice:
		n := r.Intn(4)
		if g.depth > 6 {
			n = 0
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			if t.Elem().Kind() == reflect.Pointer {
				v.Index(i).Set(reflect.New(t.Elem().Elem()))
				g.fill(v.Index(i).Elem())
			} else {
				g.fill(v.Index(i))
			}
		}
	case reflect.Array:
		switch k := r.Intn(5); k {
		case 0: // zeros
		case 1, 4: // ones, or the unit
			for i := 0; i < v.Len(); i++ {
				if r.Intn(9) > 0 && (v.Len() == 3 || v.Len() == 2 || i%5 == 0 && v.Len() == 16 || i == 3) {
					v.Index(i).SetFloat(1)
				}
			}
			if i := r.Intn(v.Len()); k == 4 { // nearly
				v.Index(i).SetFloat(nextTo(r, v.Index(i).Float()))
			}
		default:
			for i := 0; i < v.Len(); i++ {
				v.Index(i).SetFloat(randFloat(r))
			}
		}
	case reflect.Map:
		m := reflect.MakeMap(t)
		for i := r.Intn(4); i > 0; i-- {
			m.SetMapIndex(reflect.ValueOf(pick(r, "POSITION", "NORMAL", "TEXCOORD_0", "_"+randText(r, 2))), reflect.ValueOf(randInt(r)))
		}
		v.Set(m)
	case reflect.String:
		v.SetString(randText(r, r.Intn(5)))
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Float64:
		v.SetFloat(randFloat(r))
	case reflect.Int:
		v.SetInt(int64(randInt(r)))
	}
}

// randDoc is a legal document; in one kind of it only one list of objects is filled, but densely.
func randDoc(r *rand.Rand) *gltf.Document {
	d := &gltf.Document{}
	g := &docGen{r: r, dense: pick(r, 0.3, 0.5, 0.8, 1)}
	v := reflect.ValueOf(d).Elem()
	if r.Intn(3) > 0 {
		g.fill(reflect.ValueOf(&d.Asset).Elem())
		for k := 1 + r.Intn(3); k > 0; k-- {
			g.fill(v.Field(r.Intn(v.NumField())))
		}
	} else {
		g.dense = pick(r, 0.2, 0.35)
		g.fill(v)
	}
	if r.Intn(2) == 0 {
		d.Asset.Version = pick(r, "2.0", "2.1", "")
	}
	for i, b := range d.Buffers { // names of external buffers differ
		if strings.HasPrefix(b.URI, "schema") {
			b.URI = fmt.Sprintf("schema%d.bin", i)
		}
	}
	return d
}

// giveData gives every buffer in memory without URI the bytes it declares.
func giveData(d *gltf.Document, r *rand.Rand) {
	for _, b := range d.Buffers {
		if b.URI == "" && b.ByteLength > 0 {
			b.Data = randBytes(r, b.ByteLength)
		}
	}
}

// ---------------------------------------------------------------- encoding and decoding

type mode struct {
	bin, indent, file bool
}

func randMode(r *rand.Rand) mode {
	return mode{r.Intn(2) == 0, r.Intn(3) == 0, r.Intn(6) == 0}
}

func (m mode) name() string {
	s := "text"
	if m.bin {
		s = "binary"
	}
	if m.indent {
		s += ", indented"
	}
	if m.file {
		s += ", file"
	}
	return s
}

// chunkText is the JSON text of a container, or the whole.
func chunkText(b []byte) []byte {
	if len(b) >= 20 && string(b[:4]) == "glTF" {
		n := int(binary.LittleEndian.Uint32(b[12:]))
		if n >= 0 && n <= len(b)-20 {
			return b[20 : 20+n]
		}
	}
	return b
}

// stored is an encoded document and the resources next to it.
type stored struct {
	main []byte
	fs   *memFS
	file string
}

func writeDoc(d *gltf.Document, m mode) (s stored, o string, err error) {
	s.fs = &memFS{files: map[string][]byte{}}
	if m.file {
		s.file = filepath.Join(scratch, "schema.gltf")
		o, err = try(func() error {
			if m.bin {
				return gltf.SaveBinary(d, s.file)
			}
			return gltf.Save(d, s.file)
		})
		if o == "ok" {
			s.main, err = os.ReadFile(s.file)
			check(err)
		}
		return
	}
	var buf bytes.Buffer
	o, err = try(func() error {
		e := gltf.NewEncoderFS(&buf, s.fs)
		e.AsBinary = m.bin
		if m.indent {
			e.SetJSONIndent("", "  ")
		}
		return e.Encode(d)
	})
	s.main = buf.Bytes()
	return
}

func readDoc(s stored) (*gltf.Document, string, error) {
	d := new(gltf.Document)
	o, err := try(func() error {
		if s.file != "" {
			var err error
			d, err = gltf.Open(s.file)
			return err
		}
		if s.fs != nil {
			return gltf.NewDecoderFS(bytes.NewReader(s.main), s.fs).Decode(d)
		}
		return gltf.NewDecoder(bytes.NewReader(s.main)).Decode(d)
	})
	return d, o, err
}

func (s stored) remove() {
	if s.file == "" {
		return
	}
	l, _ := os.ReadDir(scratch)
	for _, f := range l {
		if strings.HasPrefix(f.Name(), "schema") {
			os.Remove(filepath.Join(scratch, f.Name()))
		}
	}
}

func bufferDigest(d *gltf.Document) string {
	var l []any
	for _, b := range d.Buffers {
		x := b.Data
		if len(x) > b.ByteLength {
			x = x[:b.ByteLength]
		}
		l = append(l, digestOf(string(x)))
	}
	return digest(l)
}

// roundTrip encodes d and decodes the result: what was written, and what is read from that.
func roundTrip(m M, d *gltf.Document, md mode) {
	m["mode"] = md.name()
	m["data"], m["data2"] = bufferDigest(d), ""
	m["out2"], m["out3"] = "none", "none"
	s, o, err := writeDoc(d, md)
	defer s.remove()
	m["out2"], m["err"] = o, errText(err)
	if o != "ok" {
		return
	}
	m["j2"] = jsonTree(chunkText(s.main))
	m["nulls"], m["xnulls"] = nullsOf(chunkText(s.main)), payloadNulls(reflect.ValueOf(d))
	d2, o, err := readDoc(s)
	m["out3"], m["err"] = o, errText(err)
	if o != "ok" {
		return
	}
	m["g2"] = memTree(reflect.ValueOf(*d2), true)
	m["data2"] = bufferDigest(d2)
}

func encodeSession(t string, d *gltf.Document, md mode) {
	begin()
	note(M{"encode": t})
	m := M{"op": "enc", "t": t, "g": memTree(reflect.ValueOf(*d), false)}
	roundTrip(m, d, md)
	emit(m)
}

// decodeSession decodes a JSON text, as text or in a container, and encodes what came out of it.
func decodeSession(t string, txt []byte, ext bool, r *rand.Rand) {
	begin()
	note(M{"decode": string(txt)})
	m := M{"op": "dec", "t": t, "ext": ext, "j": jsonTree(txt)}
	s := stored{main: txt}
	if r.Intn(3) == 0 {
		s.main = (&container{text: txt, jpad: (4 - len(txt)%4) % 4}).bytes()
	} else if r.Intn(10) == 0 {
		s.file = filepath.Join(scratch, "schema-in.gltf")
		check(os.WriteFile(s.file, txt, 0o644))
		defer s.remove()
	}
	d, o, err := readDoc(s)
	m["out"], m["err"] = o, errText(err)
	if o == "ok" {
		m["g"] = memTree(reflect.ValueOf(*d), true)
		roundTrip(m, d, randMode(r))
	}
	emit(m)
}

// ---------------------------------------------------------------- texts related to a document

// alter changes a JSON tree that a decoder accepts into another one that it has to accept.
func alter(t map[string]any, r *rand.Rand, fixed bool) {
	switch {
	case t["o"] != nil:
		var l []any
		for _, x := range t["o"].([]any) {
			kv := x.(map[string]any)
			if optional[kv["key"].(string)] && r.Intn(6) == 0 {
				continue
			}
			alter(kv["val"].(map[string]any), r, kv["key"] == "attributes" || kv["key"] == "targets")
			l = append(l, kv)
		}
		if !fixed && r.Intn(8) == 0 {
			l = append(l, map[string]any{"key": "zz" + fmt.Sprint(r.Intn(100)), "val": rawTree(pick[any](r, nil, "x", true))})
		}
		if l == nil {
			l = []any{}
		}
		t["o"] = l
	case t["a"] != nil:
		for _, x := range t["a"].([]any) {
			alter(x.(map[string]any), r, fixed)
		}
	}
}

// Properties whose absence leaves a document legal for the decoder.
var optional = map[string]bool{"name": true, "extras": true, "byteOffset": true, "normalized": true, "max": true, "min": true, "sparse": true, "mode": true,
	"alphaMode": true, "alphaCutoff": true, "doubleSided": true, "emissiveFactor": true, "normalTexture": true, "occlusionTexture": true, "scale": true,
	"strength": true, "texCoord": true, "baseColorFactor": true, "metallicFactor": true, "roughnessFactor": true, "matrix": true, "rotation": true,
	"translation": true, "weights": true, "interpolation": true, "wrapS": true, "wrapT": true, "magFilter": true, "target0": true, "intensity": true,
	"color": true, "range": true, "outerConeAngle": true, "innerConeAngle": true, "diffuseFactor": true, "specularFactor": true, "glossinessFactor": true, "offset": true}

// ---------------------------------------------------------------- enumerations and defaults

func enumEvents(r *rand.Rand) {
	names := map[string]any{"ComponentType": gltf.ComponentType(0), "AccessorType": gltf.AccessorType(0), "Target": gltf.Target(0), "PrimitiveMode": gltf.PrimitiveMode(0),
		"AlphaMode": gltf.AlphaMode(0), "MagFilter": gltf.MagFilter(0), "MinFilter": gltf.MinFilter(0), "WrappingMode": gltf.WrappingMode(0),
		"Interpolation": gltf.Interpolation(0), "TRSProperty": gltf.TRSProperty(0)}
	for en, z := range names {
		t := reflect.TypeOf(z)
		for sym := range symbols[t] {
			begin()
			p := reflect.New(t)
			setEnum(p.Elem(), sym)
			b, err := json.Marshal(p.Interface())
			check(err)
			q := reflect.New(t)
			o, err := try(func() error { return json.Unmarshal(b, q.Interface()) })
			emit(M{"op": "enum", "en": en, "sym": sym, "code": jsonTree(b), "out": o, "err": errText(err), "back": symbolOf(q.Elem()),
				"name": fmt.Sprint(p.Elem().Interface())})
		}
	}
	// element types that do not exist
	for _, s := range []string{"", "scalar", "Scalar", "SCALAR ", " SCALAR", "VEC5", "VEC", "vec2", "MAT", "MAT5", "MAT23", "VEC22", "0", "null", "SCALAR\x00", "ＳＣＡＬＡＲ",
		"VEC1", "MAT1", "VECTOR3", "5126", "FLOAT", "UNKNOWN", "Vec3", "MAT4x4", randText(r, 4)} {
		begin()
		txt := jsonString(s)
		doc := `{"asset":{"version":"2.0"},"accessors":[{"componentType":5126,"count":1,"type":` + txt + `}]}`
		var a gltf.AccessorType
		o1, _ := try(func() error { return json.Unmarshal([]byte(txt), &a) })
		o2, _ := try(func() error { return gltf.NewDecoder(strings.NewReader(doc)).Decode(new(gltf.Document)) })
		emit(M{"op": "unknown", "text": text(s), "out": o1, "out2": o2})
	}
	for c, cs := range symbols[reflect.TypeOf(gltf.ComponentFloat)] {
		for t, ts := range symbols[reflect.TypeOf(gltf.AccessorScalar)] {
			begin()
			cc, tt := gltf.ComponentType(cs), gltf.AccessorType(ts)
			emit(M{"op": "size", "c": c, "t": t, "bytes": cc.ByteSize(), "comps": tt.Components(), "elem": gltf.SizeOfElement(cc, tt)})
		}
	}
}

// constEvents records the words of the format that the packages export.
func constEvents() {
	for name, w := range map[string]string{"lights": lightspunctual.ExtensionName, "specular": specular.ExtensionName, "transform": texturetransform.ExtensionName,
		"unlit": unlit.ExtensionName, "directional": lightspunctual.TypeDirectional, "point": lightspunctual.TypePoint, "spot": lightspunctual.TypeSpot} {
		begin()
		emit(M{"op": "const", "name": name, "word": w})
	}
}

func helperEvents(r *rand.Rand) {
	types := []any{gltf.Node{}, gltf.Material{}, gltf.NormalTexture{}, gltf.OcclusionTexture{}, gltf.PBRMetallicRoughness{}, lightspunctual.Light{}, lightspunctual.Spot{},
		texturetransform.TextureTranform{}, specular.PBRSpecularGlossiness{}, gltf.Sampler{}, gltf.AnimationSampler{}, gltf.Primitive{}, gltf.TextureInfo{}}
	for _, z := range types {
		t := reflect.PointerTo(reflect.TypeOf(z))
		for i := 0; i < t.NumMethod(); i++ {
			n := t.Method(i).Name
			f := strings.TrimSuffix(n, "OrDefault")
			if f == n || t.Method(i).Type.NumIn() != 1 {
				continue
			}
			ft, ok := t.Elem().FieldByName(f)
			if !ok {
				continue
			}
			for k := 0; k < 40; k++ {
				begin()
				p := reflect.New(t.Elem())
				g := &docGen{r: r, dense: 0.8}
				if k > 25 {
					g.fill(p.Elem())
				}
				v := p.Elem().FieldByIndex(ft.Index)
				e := v
				if k > 0 && v.Kind() == reflect.Pointer {
					v.Set(reflect.New(v.Type().Elem()))
					e = v.Elem()
				}
				if k > 0 {
					switch e.Kind() {
					case reflect.Float64:
						if l := []float64{0, 1, 0.5, -1, 2, math.Pi / 4}; k <= len(l) {
							e.SetFloat(l[k-1])
						} else {
							e.SetFloat(randFloat(r))
						}
					case reflect.Array:
						for i := 0; i < e.Len(); i++ {
							switch {
							case k == 1:
								e.Index(i).SetFloat(0)
							case k == 2:
								e.Index(i).SetFloat(1)
							case k < 3+e.Len(): // one component only
								e.Index(i).SetFloat(0)
								if i == k-3 {
									e.Index(i).SetFloat(pick(r, 1, -1, 0.5))
								}
							default:
								e.Index(i).SetFloat(randFloat(r))
							}
						}
					}
				}
				before := memTree(p.Elem(), false)
				var got reflect.Value
				o, _ := try(func() error { got = p.MethodByName(n).Call(nil)[0]; return nil })
				m := M{"op": "helper", "t": t.Elem().Name(), "go": f, "g": memTree(v, false), "out": o, "same": digest(before) == digest(memTree(p.Elem(), false))}
				if o == "ok" {
					m["got"] = memTree(got, false)
				}
				emit(m)
			}
		}
	}
}

// ---------------------------------------------------------------- all

// embedAll gives every buffer of a text that lacks one a data URI.
func embedAll(j map[string]any) {
	for _, x := range j["o"].([]any) {
		if kv := x.(map[string]any); kv["key"] == "buffers" {
			for _, b := range kv["val"].(map[string]any)["a"].([]any) {
				o := b.(map[string]any)
				has := false
				for _, y := range o["o"].([]any) {
					has = has || y.(map[string]any)["key"] == "uri"
				}
				if !has {
					o["o"] = append(o["o"].([]any), map[string]any{"key": "uri", "val": map[string]any{"s": "data:application/octet-stream;base64,AQID"}})
				}
			}
		}
	}
}

// longText is a text of some n bytes.
func longText(n int, r *rand.Rand) string {
	part := randText(r, 700)
	return strings.Repeat(part, n/len(part)+1)
}

// largeSessions are about documents that are large in one respect.
func largeSessions(r *rand.Rand) {
	size := func() int { return pick(r, 5000, 70000, 1100000, 1100000) + r.Intn(5000) }
	count := func() int { return pick(r, tiers(600, 70000), 5000, tiers(20000, 70000)) + r.Intn(100) }
	nodes := func(n int) (l []*gltf.Node) {
		for i := 0; i < n; i++ {
			l = append(l, &gltf.Node{Name: fmt.Sprint(i), Mesh: gltf.Index(i), Translation: [3]float64{randFloat(r), 0, 1}})
		}
		return
	}
	numbers := func(n int) (l []float64) {
		for i := 0; i < n; i++ {
			l = append(l, randFloat(r))
		}
		return
	}
	indices := func(n int) (l []int) {
		for i := 0; i < n; i++ {
			l = append(l, randInt(r))
		}
		return
	}
	nested := func(n int) any {
		var x any = 1
		for i := 0; i < n; i++ {
			x = M{"x": []any{x}}
		}
		return x
	}
	wide := func(n int) any {
		m := M{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = pick[any](r, nil, 1, "x", []any{nil, 2})
		}
		return m
	}
	for _, f := range []func(d *gltf.Document){
		func(d *gltf.Document) { d.Asset.Copyright = longText(size(), r) },
		func(d *gltf.Document) { d.Extras = M{"a": longText(size(), r), "b": numbers(count())} },
		func(d *gltf.Document) {
			d.Extensions = gltf.Extensions{"EXT_x": json.RawMessage(`["` + strings.Repeat("x", size()) + `",null]`), unlit.ExtensionName: &unlit.Unlit{}}
		},
		func(d *gltf.Document) {
			d.Materials = []*gltf.Material{{Extensions: gltf.Extensions{unlit.ExtensionName: &unlit.Unlit{"a": longText(size(), r), "w": wide(count())}, "EXT_y": wide(700)}}}
		},
		func(d *gltf.Document) { d.Nodes = nodes(count()) },
		func(d *gltf.Document) {
			d.Nodes = []*gltf.Node{{Children: indices(count()), Weights: numbers(count())}}
			d.Skins = []*gltf.Skin{{Joints: indices(count())}}
		},
		func(d *gltf.Document) { d.Extras = nested(15 * pick(r, 7, 67, 160)) },
		func(d *gltf.Document) {
			a := gltf.PrimitiveAttributes{}
			for i := count() / 20; i > 0; i-- {
				a[fmt.Sprint("_A", i)] = i
			}
			d.Meshes = []*gltf.Mesh{{Primitives: []*gltf.Primitive{{Attributes: a, Targets: []gltf.PrimitiveAttributes{a}}}}}
		},
		func(d *gltf.Document) {
			for i := 1 + r.Intn(3); i > 0; i-- {
				d.Buffers = append(d.Buffers, &gltf.Buffer{ByteLength: size()})
			}
			giveData(d, r)
		},
		func(d *gltf.Document) {
			l := lightspunctual.Lights{}
			for i := count() / 10; i > 0; i-- {
				l = append(l, &lightspunctual.Light{Type: "point", Name: fmt.Sprint(i), Intensity: gltf.Float(float64(i)), Range: gltf.Float(1)})
			}
			d.Extensions = gltf.Extensions{lightspunctual.ExtensionName: l}
		},
		func(d *gltf.Document) {
			for i := count() / 3; i > 0; i-- {
				d.Accessors = append(d.Accessors, &gltf.Accessor{Count: i, Min: numbers(1), ComponentType: gltf.ComponentFloat})
				d.Images = append(d.Images, &gltf.Image{URI: fmt.Sprint(i, ".png")})
			}
			d.ExtensionsUsed = strings.Split(strings.Repeat("EXT_a,", count())+"b", ",")
		},
	} {
		d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
		f(d)
		encodeSession("large", d, randMode(r))
		for _, b := range d.Buffers {
			b.EmbeddedResource()
		}
		var buf bytes.Buffer
		e := gltf.NewEncoder(&buf)
		e.AsBinary = false
		if o, _ := try(func() error { return e.Encode(d) }); o == "ok" {
			decodeSession("large", buf.Bytes(), true, r)
		}
	}
}

type schemaScn struct {
	T    string
	G, J map[string]any
}

func schema(r *rand.Rand) {
	switch scope {
	case "C02":
		helperEvents(r)
	case "C03":
		enumEvents(r)
	case "C23":
		constEvents()
	case "C22":
		for i := tiers(150, 4000); i > 0; i-- {
			deliverySession(r)
		}
	}
	for _, t := range []string{`{"asset":{}}`, `{"asset":{"generator":"g"}}`, `{"asset":{"minVersion":"2.1","extras":{"version":"3"}},"nodes":[{}]}`} {
		decodeSession("bare", []byte(t), true, r)
	}
	scenarios(func(line []byte) {
		var s schemaScn
		check(json.Unmarshal(line, &s))
		embedAll(s.J)
		decodeSession(s.T, rendered(s.J, r), s.G == nil, r)
		if s.G != nil {
			d := new(gltf.Document)
			build(reflect.ValueOf(d).Elem(), s.G)
			giveData(d, r)
			encodeSession(s.T, d, randMode(r))
		}
	})
	for i := tiers(1, 6); i > 0; i-- {
		largeSessions(r)
	}
	for i := tiers(250, 6000); i > 0; i-- {
		d := randDoc(r)
		encodeSession("random", d, randMode(r))
		if i%2 > 0 {
			continue
		}
		// the same document as text, altered
		for _, b := range d.Buffers {
			b.EmbeddedResource()
		}
		var buf bytes.Buffer
		e := gltf.NewEncoder(&buf)
		e.AsBinary = false
		if o, _ := try(func() error { return e.Encode(d) }); o != "ok" {
			continue
		}
		var x any
		dec := json.NewDecoder(&buf)
		dec.UseNumber()
		if dec.Decode(&x) != nil {
			continue
		}
		tr := rawTree(x)
		alter(tr, r, false)
		decodeSession("random", rendered(tr, r), true, r)
	}
}
