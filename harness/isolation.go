package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"sync"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() { drivers["isolation"] = isolation }

// bareDoc has about every kind of object, with nothing but what is required.
func bareDoc(v int, glb bool, r *rand.Rand) isoInput {
	data := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(v*50 + i)
		}
		return b
	}
	uri := "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(data(9))
	png := "data:image/png;base64," + base64.StdEncoding.EncodeToString(data(7))
	first := `{"byteLength":12}`
	if !glb {
		first = `{"byteLength":12,"uri":"data:application/octet-stream;base64,` + base64.StdEncoding.EncodeToString(data(12)) + `"}`
	}
	text := fmt.Sprintf(`{"asset":{"version":"2.0","generator":"g%[1]d"},"scene":0,
"extensions":{"KHR_lights_punctual":{"lights":[{"type":"spot","spot":{}},{"type":"point","name":"l%[1]d"}]},"UNKNOWN":{"a":[%[1]d,{"b":"%[1]d"}]}},"extras":{"k":[%[1]d]},
"accessors":[{"bufferView":0,"componentType":5121,"type":"SCALAR","count":%[1]d},{"bufferView":0,"componentType":5121,"type":"VEC4","count":1,"min":[%[1]d,1,1,1],
 "sparse":{"count":1,"indices":{"bufferView":1,"componentType":5121},"values":{"bufferView":2}}}],
"animations":[{"channels":[{"sampler":0,"target":{"path":"rotation"}}],"samplers":[{"input":0,"output":%[1]d}]}],
"buffers":[%[2]s,{"byteLength":8,"uri":%[3]q},{"byteLength":6,"uri":"f.bin"}],
"bufferViews":[{"buffer":0,"byteLength":8},{"buffer":1,"byteLength":1,"byteOffset":%[1]d},{"buffer":1,"byteLength":4,"byteOffset":4}],
"cameras":[{"type":"perspective","perspective":{"yfov":%[1]d,"znear":1}},{"type":"orthographic","orthographic":{"xmag":1,"ymag":1,"zfar":2,"znear":1}}],
"images":[{"uri":%[4]q},{"bufferView":0,"mimeType":"image/png"}],
"materials":[{},{"pbrMetallicRoughness":{"baseColorTexture":{"index":%[1]d}},"normalTexture":{"index":0},"occlusionTexture":{"index":0},"emissiveTexture":{"index":0,"extensions":{"KHR_texture_transform":{}}},
 "extensions":{"KHR_materials_unlit":{},"KHR_materials_pbrSpecularGlossiness":{}}},{"pbrMetallicRoughness":{}}],
"meshes":[{"primitives":[{"attributes":{"POSITION":%[1]d}}]}],"nodes":[{},{"children":[%[5]s]},{"extensions":{"KHR_lights_punctual":{"light":%[1]d}}}],
"samplers":[{}],"scenes":[{"nodes":[0]}],"skins":[{"joints":[%[1]d]}],"textures":[{},{"source":%[1]d}]}`, v, first, uri, png, strings.TrimSuffix(strings.Repeat("0,", v), ","))
	in := isoInput{main: []byte(text), files: map[string][]byte{"f.bin": data(6)}}
	if glb {
		c := &container{text: in.main, jpad: (4 - len(in.main)%4) % 4, hasBin: true, bin: data(12)}
		in.main = c.bytes()
	}
	return in
}

type isoInput struct {
	main  []byte
	files map[string][]byte
}

// vary changes values without making any property appear or disappear.
func vary(v reflect.Value, r *rand.Rand) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			if v.Type().Elem().Kind() == reflect.Int {
				v.Elem().SetInt(v.Elem().Int() + 1)
				return
			}
			vary(v.Elem(), r)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			switch {
			case f.Name == "Name" && f.Type.Kind() == reflect.String && v.Field(i).Len() > 0:
				v.Field(i).SetString(v.Field(i).String() + "'")
			default:
				vary(v.Field(i), r)
			}
		}
	case reflect.Slice:
		if v.Type() == reflect.TypeOf([]int{}) && v.Len() > 0 {
			l := make([]int, 1+r.Intn(4))
			for i := range l {
				l[i] = r.Intn(9)
			}
			v.Set(reflect.ValueOf(l))
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := range v.Bytes() {
				v.Bytes()[i] ^= byte(1 + r.Intn(255))
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			vary(v.Index(i), r)
		}
	}
}

// isoInputs are what is decoded in a session, by key.
func isoInputs(r *rand.Rand) map[string]isoInput {
	m := map[string]isoInput{}
	pair := func(name string) {
		if r.Intn(2) == 0 {
			glb := r.Intn(2) == 0
			m[name+"1"], m[name+"2"] = bareDoc(1, glb, r), bareDoc(2, glb, r)
			return
		}
		seed, bin := r.Int63(), r.Intn(2) == 0
		for v, n := range []string{"1", "2"} {
			r2 := rand.New(rand.NewSource(seed))
			d := randDoc(r2)
			if v == 1 {
				for _, l := range []any{d.Accessors, d.Animations, d.Buffers, d.BufferViews, d.Images, d.Materials, d.Meshes, d.Nodes, d.Scenes, d.Skins, d.Textures} {
					vary(reflect.ValueOf(l), r2)
				}
			}
			var w bytes.Buffer
			f := &memFS{files: map[string][]byte{}}
			e := gltf.NewEncoderFS(&w, f)
			e.AsBinary = bin
			if o, _ := try(func() error { return e.Encode(d) }); o != "ok" {
				m[name+n] = bareDoc(v+1, bin, r)
				continue
			}
			m[name+n] = isoInput{w.Bytes(), f.files}
		}
	}
	pair("a")
	pair("b")
	return m
}

// clobber overwrites all memory that can be reached, up to the capacities.
func clobber(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		clobber(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			clobber(v.Elem(), seen)
			if v.CanSet() && v.NumMethod() == 0 {
				v.Set(reflect.ValueOf("clobbered"))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			clobber(v.Field(i), seen)
		}
	case reflect.Slice:
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			clobber(v.Index(i), seen)
			if e := v.Index(i); e.Kind() == reflect.Pointer && e.CanSet() {
				e.Set(reflect.New(e.Type().Elem()))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			clobber(v.Index(i), seen)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			clobber(v.MapIndex(k), seen)
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
		k := reflect.New(v.Type().Key()).Elem()
		if k.Kind() == reflect.String {
			k.SetString("clobbered")
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("clobbered")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-77.5)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(77)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(77)
		}
	}
}

type isoAct struct {
	Do   string
	Slot int
	Key  string
}

type isoSession struct {
	r      *rand.Rand
	inputs map[string]isoInput
	docs   []*gltf.Document
	writes []int
	base   int // makes sessions differ
}

func isoBuild(d *gltf.Document, k int, given *[]reflect.Value) {
	r := rand.New(rand.NewSource(int64(k)))
	for i := 1 + r.Intn(3); i > 0; i-- {
		n := 1 + r.Intn(4)
		switch r.Intn(5) {
		case 0:
			it := newItem("float", "VEC3", n, r)
			modeler.WritePosition(d, it.data().([][3]float32))
			*given = append(*given, it.v)
		case 1:
			it := newItem("ushort", "SCALAR", n, r)
			modeler.WriteIndices(d, it.data())
			*given = append(*given, it.v)
		case 2:
			p, j := newItem("float", "VEC3", n, r), newItem("ubyte", "VEC2", n, r)
			a, err := modeler.WritePrimitiveAttributes(d, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: p.data()}, modeler.PrimitiveAttribute{Name: gltf.TEXCOORD_0, Data: j.data()})
			check(err)
			d.Meshes = append(d.Meshes, &gltf.Mesh{Primitives: []*gltf.Primitive{{Attributes: a}}})
			*given = append(*given, p.v)
			*given = append(*given, j.v)
		case 3:
			b := randBytes(r, n*5)
			var rd io.Reader = bytes.NewReader(b)
			if r.Intn(2) == 0 {
				rd = bytes.NewBuffer(b)
			}
			_, err := modeler.WriteImage(d, "i", "image/png", rd)
			check(err)
			*given = append(*given, reflect.ValueOf(b))
		case 4:
			it := newItem(pick(r, "byte", "short", "uint"), pick(r, "VEC2", "VEC3", "MAT3", "SCALAR"), n, r)
			modeler.WriteAccessor(d, pick(r, gltf.TargetNone, gltf.TargetArrayBuffer), it.data())
			*given = append(*given, it.v)
		}
	}
}

func isoRead(d *gltf.Document, given *[]reflect.Value) string {
	var b strings.Builder
	for _, a := range d.Accessors {
		if a == nil || a.BufferView == nil || noHang(a) {
			continue
		}
		v, err := modeler.ReadAccessor(d, a, nil)
		if err != nil {
			b.WriteString("error;")
			continue
		}
		b.WriteString(digest(v) + ";")
		*given = append(*given, reflect.ValueOf(v))
	}
	for _, im := range d.Images {
		if im == nil || !im.IsEmbeddedResource() {
			continue
		}
		v, err := im.MarshalData()
		if err != nil {
			b.WriteString("error;")
			continue
		}
		b.WriteString(digest(v) + ";")
		*given = append(*given, reflect.ValueOf(v))
	}
	return digestOf(b.String())
}

// act does one thing to one document.
// given collects the memory that is its owner's again afterwards.
func (s *isoSession) act(a isoAct, how string, rd *rand.Rand, given *[]reflect.Value) M {
	m := M{"do": a.Do, "slot": a.Slot, "key": a.Key, "how": how, "res": ""}
	i := a.Slot - 1
	decode := func() error {
		in := s.inputs[a.Key]
		main, files := append([]byte{}, in.main...), map[string][]byte{}
		for k, v := range in.files {
			files[k] = append([]byte{}, v...)
		}
		err := gltf.NewDecoderFS(portions(pick(rd, "whole", "random"), main, 0, rd), &memFS{files: files}).Decode(s.docs[i])
		*given = append(*given, reflect.ValueOf(main))
		for _, v := range files {
			*given = append(*given, reflect.ValueOf(v))
		}
		return err
	}
	o, err := try(func() error {
		switch a.Do {
		case "decode":
			s.docs[i] = new(gltf.Document)
			s.writes[i] = 0
			return decode()
		case "again":
			return decode()
		case "new":
			s.docs[i] = gltf.NewDocument()
			s.writes[i] = 0
		case "build":
			s.docs[i] = gltf.NewDocument()
			s.writes[i] = 0
			isoBuild(s.docs[i], s.base+int(a.Key[1]), given)
		case "write":
			s.writes[i]++
			isoBuild(s.docs[i], s.base+1000+s.writes[i], given)
		case "scribble":
			clobber(reflect.ValueOf(s.docs[i]), map[uintptr]bool{})
		case "read":
			m["res"] = isoRead(s.docs[i], given)
		case "encode":
			var w bytes.Buffer
			f := &memFS{files: map[string][]byte{}}
			e := gltf.NewEncoderFS(&w, f)
			e.AsBinary = how == "binary"
			if how == "indent" {
				e.SetJSONIndent("", " ")
			}
			if err := e.Encode(s.docs[i]); err != nil {
				m["res"] = "error"
			} else {
				m["res"] = digestOf(w.String() + filesDigest(f.files))
			}
		}
		return nil
	})
	m["out"], m["err"] = o, errText(err)
	return m
}

func (s *isoSession) digests() []string {
	l := []string{}
	for _, d := range s.docs {
		l = append(l, digest(d))
	}
	return l
}

func isoHistory(steps [][]isoAct, slots int, r *rand.Rand) {
	begin()
	note(steps)
	s := &isoSession{r: r, inputs: isoInputs(r), docs: make([]*gltf.Document, slots), writes: make([]int, slots), base: r.Intn(1 << 30)}
	emit(M{"op": "start", "docs": s.digests()})
	given := make([][]reflect.Value, slots)
	for n, acts := range steps {
		res := make([]M, len(acts))
		var wg sync.WaitGroup
		for i, a := range acts {
			how := ""
			switch a.Do {
			case "encode":
				how = pick(r, "text", "binary", "indent")
			case "read":
				how = "elements"
			}
			rd := rand.New(rand.NewSource(r.Int63()))
			if len(acts) == 1 {
				res[i] = s.act(a, how, rd, &given[a.Slot-1])
				continue
			}
			wg.Add(1)
			go func(i int, a isoAct) {
				defer wg.Done()
				res[i] = s.act(a, how, rd, &given[a.Slot-1])
			}(i, a)
		}
		wg.Wait()
		emit(M{"op": "acts", "acts": res, "docs": s.digests()})
		if n == len(steps)-1 || r.Intn(3) == 0 { // what was handed in or out is overwritten
			for i, l := range given {
				for _, v := range l {
					clobber(v, map[uintptr]bool{})
				}
				given[i] = nil
			}
			emit(M{"op": "acts", "acts": []M{}, "docs": s.digests()})
		}
	}
}

func isolation(r *rand.Rand) {
	scenarios(func(line []byte) {
		var steps [][]isoAct
		check(json.Unmarshal(line, &steps))
		isoHistory(steps, 3, r)
	})
	for i := share(tiers(400, 15000)); i > 0; i-- {
		slots := 2 + r.Intn(3)
		org := make([]string, slots)
		one := func(k int) isoAct {
			for {
				a := isoAct{Slot: k + 1, Do: pick(r, "decode", "decode", "decode", "again", "build", "new", "encode", "read", "write", "write", "scribble")}
				o := org[k]
				tame := o != "" && o != "wild"
				switch a.Do {
				case "decode":
					a.Key = pick(r, "a1", "a2", "b1", "b2")
					o = a.Key
				case "again":
					if o != "a1" && o != "a2" {
						continue
					}
					a.Key = pick(r, "a1", "a2")
					o = a.Key
				case "build":
					a.Key = pick(r, "w1", "w2", "w3")
					o = a.Key
				case "new":
					a.Key, o = "n", "n"
				case "scribble":
					if o == "" {
						continue
					}
					o = "wild"
				case "write":
					if !tame {
						continue
					}
					o += "+"
				default:
					if !tame {
						continue
					}
				}
				org[k] = o
				return a
			}
		}
		var steps [][]isoAct
		for k := 4 + r.Intn(9); k > 0; k-- {
			if r.Intn(4) > 0 {
				steps = append(steps, []isoAct{one(r.Intn(slots))})
				continue
			}
			var l []isoAct
			for j := 0; j < slots; j++ {
				if r.Intn(4) > 0 {
					l = append(l, one(j))
				}
			}
			if len(l) > 0 {
				steps = append(steps, l)
			}
		}
		isoHistory(steps, slots, r)
	}
}
