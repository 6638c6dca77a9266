package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/qmuntal/gltf"
)

func init() { drivers["effects"] = effects }

// ---------------------------------------------------------------- memory of a document

// strict writes everything that can be reached: addresses, lengths, capacities and the bytes
// up to the capacity, nil and empty apart.
func strict(b *strings.Builder, v reflect.Value, seen map[uintptr]bool) {
	addr := func(p uintptr) { b.WriteString("@" + strconv.FormatUint(uint64(p), 16)) }
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		addr(v.Pointer())
		if v.Type().Elem().Size() > 0 && seen[v.Pointer()] && v.Elem().Kind() == reflect.Struct {
			return
		}
		seen[v.Pointer()] = true
		strict(b, v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Elem().Type().String() + ":")
		strict(b, v.Elem(), seen)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			strict(b, v.Field(i), seen)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		addr(v.Pointer())
		b.WriteString(fmt.Sprintf(":%d:%d", v.Len(), v.Cap()))
		v = v.Slice(0, v.Cap())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteString("x" + hex.EncodeToString(v.Bytes()))
			return
		}
		for i := 0; i < v.Len(); i++ {
			b.WriteByte(',')
			strict(b, v.Index(i), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b.WriteByte(',')
			strict(b, v.Index(i), seen)
		}
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		addr(v.Pointer())
		var l []string
		for it := v.MapRange(); it.Next(); {
			var e strings.Builder
			strict(&e, it.Key(), seen)
			e.WriteByte('=')
			strict(&e, it.Value(), map[uintptr]bool{})
			l = append(l, e.String())
		}
		sort.Strings(l)
		b.WriteString(strings.Join(l, ";"))
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		addr(v.Pointer())
	default:
		dump(b, v)
	}
}

// effDoc is a document under observation, with memory it borrows from.
type effDoc struct {
	d     *gltf.Document
	arena [][]byte
}

func (e *effDoc) mem() map[string]string {
	m := map[string]string{}
	v := reflect.ValueOf(e.d).Elem()
	for i := 0; i < v.NumField(); i++ {
		var b strings.Builder
		strict(&b, v.Field(i), map[uintptr]bool{})
		m[v.Type().Field(i).Name] = digestOf(b.String())
	}
	var b strings.Builder
	strict(&b, reflect.ValueOf(e.arena), map[uintptr]bool{})
	m["surroundings"] = digestOf(b.String())
	return m
}

type refuses struct{ A int }

func (refuses) MarshalJSON() ([]byte, error) { return nil, errors.New("no JSON") }

// newEffDoc makes the document of a seed; the same seed gives an equal one.
func newEffDoc(seed int64, kind string) *effDoc {
	r := rand.New(rand.NewSource(seed))
	e := &effDoc{}
	if kind == "dense" {
		e.d = randDoc(r)
	} else {
		e.d = faultDoc(r)
		e.d.Materials = []*gltf.Material{{PBRMetallicRoughness: &gltf.PBRMetallicRoughness{BaseColorFactor: &[4]float64{1, 1, 1, 1}, MetallicFactor: gltf.Float(1)},
			AlphaCutoff: gltf.Float(0.5), NormalTexture: &gltf.NormalTexture{Scale: gltf.Float(1)}, OcclusionTexture: &gltf.OcclusionTexture{Strength: gltf.Float(1)}}, {}}
		e.d.Nodes = append(e.d.Nodes, &gltf.Node{}, &gltf.Node{Scale: [3]float64{1, 1, 1}})
		e.d.Cameras = []*gltf.Camera{{Perspective: &gltf.Perspective{Yfov: 1, Znear: 1}}, {Orthographic: &gltf.Orthographic{}}}
		e.d.Asset.Version = pick(r, "", "2.0")
		e.d.Extras = pick[any](r, nil, map[string]any{}, &map[string]int{"a": 1}, json.RawMessage(`{ "z" : 1, "a" : [ ] }`))
		e.d.Extensions = pick(r, nil, gltf.Extensions{}, gltf.Extensions{"E": map[string]any{"b": nil}, "A": json.RawMessage(` 1 `)})
	}
	d := e.d
	// several buffers in one piece of memory, with room behind them
	for _, b := range d.Buffers {
		if r.Intn(2) == 0 {
			continue
		}
		a := randBytes(r, len(b.Data)+16)
		copy(a[4:], b.Data)
		e.arena = append(e.arena, a)
		b.Data = a[4 : 4+len(b.Data)]
		if r.Intn(3) == 0 && len(b.Data) > 1 && (b.URI != "" || r.Intn(2) == 0) {
			b.ByteLength = 1 + r.Intn(len(b.Data))
		} else if r.Intn(4) == 0 {
			b.ByteLength = len(b.Data) + r.Intn(5)
		}
	}
	if len(d.Buffers) > 1 && r.Intn(4) == 0 {
		d.Buffers[1].Data = d.Buffers[0].Data
	}
	if r.Intn(5) == 0 {
		d.Buffers = append(d.Buffers, &gltf.Buffer{URI: pick(r, "http://host/x.bin", "a%20b.bin", `dir\q.bin`, "./z.bin"), ByteLength: 2, Data: []byte{1, 2}})
	}
	if r.Intn(4) == 0 {
		d.Images = append(d.Images, &gltf.Image{URI: pick(r, "a%20b.png", `dir\q.png`, "data:image/png;base64,AA==")})
	}
	switch kind {
	case "bulky":
		for k := 1 + r.Intn(2); k > 0; k-- {
			b := &gltf.Buffer{Data: randBytes(r, bulkSizes[r.Intn(len(bulkSizes))]+r.Intn(3))}
			b.ByteLength = len(b.Data)
			b.EmbeddedResource()
			d.Buffers = append(d.Buffers, b)
		}
	case "camera":
		d.Cameras = append(d.Cameras, &gltf.Camera{Name: "none"})
	case "extras":
		n := &gltf.Node{Name: "bad"}
		switch r.Intn(6) {
		case 0:
			n.Extras = map[string]any{"c": make(chan int)}
		case 1:
			n.Translation[1] = math.NaN()
		case 2:
			n.Extensions = gltf.Extensions{"X": refuses{}}
		case 3:
			n.Extras = json.RawMessage(`{"broken":`)
		case 4:
			n.Extensions = gltf.Extensions{"X": &refuses{}, "Y": math.Inf(1)}
		case 5:
			d.Asset.Extras = func() {}
		}
		d.Nodes = append(d.Nodes, n)
	case "baduri":
		k := r.Intn(len(d.Buffers) + 1)
		d.Buffers = append(d.Buffers, nil)
		copy(d.Buffers[k+1:], d.Buffers[k:])
		d.Buffers[k] = &gltf.Buffer{URI: pick(r, "../x.bin", "a/../../x.bin", "%2e%2e/x.bin", `..\x.bin`), ByteLength: 3, Data: []byte{1, 2, 3}}
	}
	return e
}

// edit changes the document as its owner may.
func (e *effDoc) edit(seed int64) {
	r := rand.New(rand.NewSource(seed))
	d := e.d
	if len(d.Buffers) > 0 {
		b := d.Buffers[r.Intn(len(d.Buffers))]
		switch r.Intn(5) {
		case 0, 1:
			if len(b.Data) > 0 {
				b.Data[r.Intn(len(b.Data))] ^= byte(1 + r.Intn(255))
				return
			}
		case 2:
			b.Data = randBytes(r, 1+r.Intn(30))
			b.ByteLength = len(b.Data)
			return
		case 3:
			b.Data = append(b.Data, 7)
			b.ByteLength = len(b.Data)
			return
		case 4:
			b.Name += "x"
			return
		}
	}
	switch r.Intn(3) {
	case 0:
		d.Nodes = append(d.Nodes, &gltf.Node{Name: randText(r, 3)})
	case 1:
		d.Asset.Generator += "!"
	case 2:
		if len(d.Nodes) > 0 && d.Nodes[0] != nil {
			d.Nodes[0].Scale = [3]float64{2, 1, 0}
		}
	}
}

// ---------------------------------------------------------------- encodings

type effRun struct {
	Out   string `json:"out"`
	Main  string `json:"main"`
	Files string `json:"files"`
}

func filesDigest(files map[string][]byte) string { return digest(files) }

func effIndent(step string) [2]string {
	switch {
	case strings.Contains(step, "Indent"):
		return [2]string{"", " "}
	case strings.Contains(step, "Prefix"):
		return [2]string{"  ", "\t"}
	}
	return [2]string{}
}

// effLast is the setting of the encoder that the session uses again and again.
var effLast *[2]string

// effEncode encodes once, in the mode of the step.
func effEncode(d *gltf.Document, step string, st *faultState, reuse *gltf.Encoder, main *bytes.Buffer) effRun {
	if strings.HasPrefix(step, "save") {
		return effSave(d, step)
	}
	fsys := &memFS{files: map[string][]byte{}, fault: st}
	start := main.Len()
	o, _ := try(func() error {
		e := reuse
		if e == nil {
			e = gltf.NewEncoder(&faultWriter{st: st, sink: func(b []byte) { main.Write(b) }})
		}
		e.Fsys = fsys
		if strings.Contains(step, "Bare") {
			e.Fsys = nil
		}
		e.AsBinary = strings.HasPrefix(step, "binary")
		// an encoder used again keeps its setting until another one is asked for
		if set := effIndent(step); reuse == nil || *effLast != set {
			e.SetJSONIndent(set[0], set[1])
			if reuse != nil {
				*effLast = set
			}
		}
		return e.Encode(d)
	})
	return effRun{o, digestOf(string(main.Bytes()[start:])), filesDigest(fsys.files)}
}

func effSave(d *gltf.Document, step string) effRun {
	dir := filepath.Join(scratch, "c08", "deep", "er")
	check(os.MkdirAll(filepath.Join(dir, "dir"), 0o755))
	defer os.RemoveAll(filepath.Join(scratch, "c08"))
	name := filepath.Join(dir, "m.out")
	check(os.WriteFile(name, bytes.Repeat([]byte("old "), 2000), 0o644))
	check(os.WriteFile(filepath.Join(dir, "a.bin"), bytes.Repeat([]byte("old "), 100), 0o644))
	o, _ := try(func() error {
		if step == "saveBinary" {
			return gltf.SaveBinary(d, name)
		}
		return gltf.Save(d, name)
	})
	files := map[string][]byte{}
	filepath.Walk(filepath.Join(scratch, "c08"), func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			check(err)
			files[p] = b
		}
		return nil
	})
	main := files[name]
	delete(files, name)
	return effRun{o, digestOf(string(main)), filesDigest(files)}
}

type effScn struct {
	Kind  string
	Steps []string
}

func effSession(s effScn, seed int64, r *rand.Rand) {
	begin()
	note(M{"kind": s.Kind, "steps": s.Steps, "seed": seed})
	doc := newEffDoc(seed, s.Kind)
	twin := func(edits []int64) *gltf.Document {
		t := newEffDoc(seed, s.Kind)
		for _, e := range edits {
			t.edit(e)
		}
		return t.d
	}
	var edits []int64
	var long bytes.Buffer
	calm := &faultState{kind: "none"}
	effLast = new([2]string)
	reused := gltf.NewEncoder(&faultWriter{st: calm, sink: func(b []byte) { long.Write(b) }})
	emit(M{"op": "start", "kind": s.Kind, "mem": doc.mem()})
	for _, step := range s.Steps {
		if step == "edit" {
			edits = append(edits, r.Int63())
			doc.edit(edits[len(edits)-1])
			emit(M{"op": "edit", "mem": doc.mem()})
			continue
		}
		before := doc.mem()
		during := map[string]bool{}
		watch := func() {
			for k, v := range doc.mem() {
				if before[k] != v {
					during[k] = true
				}
			}
		}
		var runs []M
		one := func(key string, x effRun) {
			m := M{"key": key, "out": x.Out, "main": x.Main, "files": x.Files}
			if key != "" {
				t := effEncode(twin(edits), key, &faultState{kind: "none"}, nil, &bytes.Buffer{})
				m["twin"] = M{"out": t.Out, "main": t.Main, "files": t.Files}
			}
			runs = append(runs, m)
		}
		base := strings.TrimSuffix(strings.TrimSuffix(step, "Fails"), "Reused")
		switch {
		case step == "concurrent":
			modes := []string{"text", "binary", "binary", "textIndent"}
			res := make([]effRun, len(modes))
			var wg sync.WaitGroup
			for i := range modes {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					res[i] = effEncode(doc.d, modes[i], &faultState{kind: "none"}, nil, &bytes.Buffer{})
				}(i)
			}
			wg.Wait()
			for i := range modes {
				one(modes[i], res[i])
			}
		case strings.HasSuffix(step, "Fails"):
			if base == "file" {
				base = pick(r, "text", "binary")
			}
			st := &faultState{kind: pick(r, "none", "part", "all", "short", "shortHalf", "zero"), at: 1 + r.Intn(4), always: r.Intn(2) == 0, watch: watch}
			if step == "fileFails" {
				st.at = 1 + r.Intn(14)
			}
			one("", effEncode(doc.d, base, st, nil, &bytes.Buffer{}))
		case strings.HasSuffix(step, "Reused"):
			calm.watch = watch
			one(base, effEncode(doc.d, base, calm, reused, &long))
		default:
			one(base, effEncode(doc.d, base, &faultState{kind: "none", watch: watch}, nil, &bytes.Buffer{}))
		}
		l := []string{}
		for k := range during {
			l = append(l, k)
		}
		sortStrings(l)
		emit(M{"op": "enc", "step": step, "mem": doc.mem(), "during": l, "runs": runs})
	}
}

func effects(r *rand.Rand) {
	scenarios(func(line []byte) {
		var s effScn
		check(json.Unmarshal(line, &s))
		effSession(s, r.Int63(), r)
	})
	for i := share(tiers(300, 20000)); i > 0; i-- {
		s := effScn{Kind: pick(r, "plain", "dense", "dense", "camera", "extras", "baduri")}
		for k := 2 + r.Intn(5); k > 0; k-- {
			s.Steps = append(s.Steps, pick(r, "text", "binary", "textIndent", "binaryIndent", "binaryReused", "textReused", "textPrefixReused", "binaryPrefixReused", "textIndentReused", "binaryPrefix", "textBare", "binaryBare", "save", "saveBinary",
				"textFails", "binaryFails", "fileFails", "concurrent", "edit"))
		}
		effSession(s, r.Int63(), r)
	}
	// one encoder, the document edited in between
	for i := share(tiers(200, 5000)); i > 0; i-- {
		s := effScn{Kind: pick(r, "plain", "dense", "bulky", "bulky", "bulky")}
		for k := 2 + r.Intn(3); k > 0; k-- {
			m := pick(r, "textReused", "binaryReused", "textPrefixReused", "binaryPrefixReused", "textIndentReused")
			for j := 1 + r.Intn(2); j > 0; j-- {
				s.Steps = append(s.Steps, m)
				if r.Intn(2) == 0 {
					s.Steps = append(s.Steps, "edit")
				}
			}
		}
		effSession(s, r.Int63(), r)
	}
}
