package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() { drivers["modeler"] = modelerAll }

// mitem is the data of one accessor or view.
type mitem struct {
	name, c, t string
	v          reflect.Value // a slice; invalid: no data
	flat       []int
}

func (m *mitem) n() int {
	if !m.v.IsValid() {
		return 0
	}
	return m.v.Len()
}

func (m *mitem) data() any {
	if !m.v.IsValid() {
		return nil
	}
	return m.v.Interface()
}

func (m *mitem) event() M {
	return M{"name": m.name, "c": m.c, "t": m.t, "n": m.n(), "flat": m.flat}
}

// finite keeps floats comparable and encodable.
func finite(v reflect.Value, r *rand.Rand) {
	leaves(v, func(x reflect.Value) {
		if x.Kind() != reflect.Float32 {
			return
		}
		f := x.Float()
		if math.IsNaN(f) || math.IsInf(f, 0) || r.Intn(3) == 0 {
			x.SetFloat(float64(pick(r, 0, float32(math.Copysign(0, -1)), 1, -1, 0.5, math.MaxFloat32, -math.MaxFloat32,
				math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, 1e-30, -3.25, 16777216, 0.1)))
		}
	})
}

func flatOf(v reflect.Value) []int {
	l := []int{}
	leaves(v, func(x reflect.Value) { l = append(l, compBytes(x)...) })
	return l
}

func newItem(c, t string, n int, r *rand.Rand) *mitem {
	m := &mitem{c: c, t: t}
	switch c {
	case "?": // a type that is no element type
		m.v = pick(r, reflect.ValueOf(make([]int, n)), reflect.ValueOf(make([]string, n)), reflect.ValueOf(make([]float64, n)), reflect.ValueOf(make([][5]uint8, n)))
		m.flat = []int{}
		return m
	}
	et := elemType(c, t)
	if t == "VEC4" && r.Intn(4) == 0 && (c == "ubyte" || c == "ushort") {
		et = elemType(c, "COLOR")
	}
	m.v = reflect.MakeSlice(reflect.SliceOf(et), n, n)
	fill(m.v, r)
	finite(m.v, r)
	m.flat = flatOf(m.v)
	return m
}

func randType(r *rand.Rand) (string, string) {
	return ctypes[r.Intn(len(ctypes))].name, ttypes[r.Intn(len(ttypes))].name
}

func randN(r *rand.Rand) int {
	if r.Intn(25) == 0 {
		return 20 + r.Intn(20)
	}
	return 1 + r.Intn(5)
}

// ---------------------------------------------------------------- projection of documents

func floatKey(x float64) int {
	f := float32(x)
	if float64(f) != x {
		return 2100000000
	}
	b := math.Float32bits(f)
	if b < 1<<31 {
		return int(b)
	}
	return -int(b & (1<<31 - 1))
}

func floatKeys(l []float64) []int {
	k := []int{}
	for _, x := range l {
		k = append(k, floatKey(x))
	}
	return k
}

func bv(i *int) int {
	if i == nil {
		return -1
	}
	return sat(*i)
}

func targetName(t gltf.Target) string {
	switch t {
	case gltf.TargetNone:
		return "none"
	case gltf.TargetArrayBuffer:
		return "array"
	case gltf.TargetElementArrayBuffer:
		return "element"
	}
	return "?" + strconv.Itoa(int(t))
}

func docProj(d *gltf.Document) M {
	bufs, views, accs, imgs := []M{}, []M{}, []M{}, []M{}
	for _, b := range d.Buffers {
		bufs = append(bufs, M{"n": sat(b.ByteLength), "data": ints(b.Data)})
	}
	for _, v := range d.BufferViews {
		views = append(views, M{"b": sat(v.Buffer), "off": sat(v.ByteOffset), "len": sat(v.ByteLength), "stride": sat(v.ByteStride), "target": targetName(v.Target),
			"x": digest([]any{v.Name, v.Extensions, v.Extras})})
	}
	for _, a := range d.Accessors {
		accs = append(accs, M{"bv": bv(a.BufferView), "off": sat(a.ByteOffset), "c": cname(a.ComponentType), "t": tname(a.Type), "n": sat(a.Count), "norm": a.Normalized,
			"min": floatKeys(a.Min), "max": floatKeys(a.Max), "x": digest([]any{a.Name, a.Extensions, a.Extras, a.Sparse})})
	}
	for _, i := range d.Images {
		imgs = append(imgs, M{"bv": bv(i.BufferView), "name": i.Name, "mime": i.MimeType, "x": digest([]any{i.URI, i.Extensions, i.Extras})})
	}
	return M{"bufs": bufs, "views": views, "accs": accs, "imgs": imgs}
}

// ---------------------------------------------------------------- sessions

type mghost struct {
	kind string
	i    int
	it   *mitem
}

type msession struct {
	doc, twin *gltf.Document
	ghosts    []mghost
	files     map[string][]byte
	r         *rand.Rand
	reads     int
	image1    *lastImage
	past      []*mitem // copies of what was written
}

// clone copies an item, with its data.
func (m *mitem) clone() *mitem {
	c := &mitem{name: m.name, c: m.c, t: m.t, flat: append([]int{}, m.flat...)}
	if m.v.IsValid() {
		c.v = reflect.MakeSlice(m.v.Type(), m.v.Len(), m.v.Len())
		reflect.Copy(c.v, m.v)
	}
	return c
}

// again writes data like data written before, the same or with one element changed, by any of the operations.
func (s *msession) again(target gltf.Target) {
	if len(s.past) == 0 {
		return
	}
	r := s.r
	it := s.past[len(s.past)-1].clone()
	if r.Intn(2) == 0 {
		it = s.past[r.Intn(len(s.past))].clone()
	}
	n := it.n()
	if r.Intn(3) == 0 {
		one := newItem(it.c, it.t, 1, r)
		if one.v.Type() == it.v.Type() {
			it.v.Index(r.Intn(n)).Set(one.v.Index(0))
			it.flat = flatOf(it.v)
		}
	}
	switch k := r.Intn(8); {
	case k == 0:
		s.writeView(it, target)
	case k == 1:
		x := newItem("float", "VEC3", n, r)
		l := []*mitem{it, x}
		if r.Intn(2) == 0 {
			l = []*mitem{x, it}
		}
		if r.Intn(4) == 0 {
			l[0], l[1] = it, it.clone()
		}
		s.group(l, r.Intn(3) > 0)
	case k == 2:
		it.name = "_AGAIN"
		x := it.clone()
		x.name = "_ONCE_MORE"
		s.attrs([]*mitem{it, x}[:1+r.Intn(2)])
	case k < 5:
		var l []string
		for _, h := range helperNames {
			for _, x := range helperTypes[h] {
				if x == [2]string{it.c, it.t} {
					l = append(l, h)
				}
			}
		}
		if len(l) > 0 && !strings.HasPrefix(it.v.Type().String(), "[]color") {
			s.writeHelper(l[r.Intn(len(l))], it)
			return
		}
		fallthrough
	default:
		s.writeAccessor(it, target)
	}
}

type lastImage struct {
	name, mime string
	b          []byte
}

func startDoc(kind string, r *rand.Rand) (*gltf.Document, map[string][]byte) {
	files := map[string][]byte{}
	load := func(text string, bin []byte) *gltf.Document {
		in := []byte(text)
		if bin != nil {
			c := &container{text: in, jpad: (4 - len(in)%4) % 4, hasBin: true, bin: bin, bpad: (4 - len(bin)%4) % 4}
			in = c.bytes()
		}
		d := new(gltf.Document)
		check(gltf.NewDecoderFS(bytes.NewReader(in), &memFS{files: files}).Decode(d))
		return d
	}
	data := func(n int) string {
		return "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(randBytes(r, n))
	}
	switch kind {
	case "nil":
		return &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}, files
	case "new":
		return gltf.NewDocument(), files
	case "text":
		n := 8 + r.Intn(8)
		return load(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d,"uri":%q}],"bufferViews":[{"buffer":0,"byteLength":4,"byteOffset":4}],
			"accessors":[{"bufferView":0,"componentType":5121,"type":"SCALAR","count":3,"min":[0],"max":[255]}],"images":[{"uri":"a.png","name":"i"}],"nodes":[{"name":"n"}]}`, n, data(n)), nil), files
	case "glb":
		n := 1 + r.Intn(9)
		return load(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d}],"bufferViews":[{"buffer":0,"byteLength":%d}]}`, n, n), randBytes(r, n)), files
	case "two":
		n := 1 + r.Intn(9)
		files["e.bin"] = randBytes(r, n+r.Intn(3))
		return load(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":3,"uri":%q},{"byteLength":%d,"uri":"e.bin"}],
			"bufferViews":[{"buffer":1,"byteLength":1},{"buffer":0,"byteLength":2,"byteOffset":1}]}`, data(3), n), nil), files
	case "behind", "crowd": // a lot is there already
		d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
		n := pick(r, 32760, 65530, 70000) + r.Intn(9)
		if kind == "crowd" {
			n = 600
		}
		d.Buffers = []*gltf.Buffer{{ByteLength: n, Data: randBytes(r, n)}}
		if kind == "crowd" {
			for i := 0; i < 257+r.Intn(40); i++ {
				d.BufferViews = append(d.BufferViews, &gltf.BufferView{ByteOffset: 2 * i, ByteLength: 2})
				d.Accessors = append(d.Accessors, &gltf.Accessor{BufferView: gltf.Index(i), ComponentType: gltf.ComponentUbyte, Count: 2})
				d.Images = append(d.Images, &gltf.Image{URI: "i.png"})
			}
		}
		return d, files
	case "many": // put together in memory
		d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
		for k := 2 + r.Intn(3); k > 0; k-- {
			n := r.Intn(12)
			if r.Intn(2) == 0 {
				n = 4 * (1 + r.Intn(4))
			}
			d.Buffers = append(d.Buffers, &gltf.Buffer{ByteLength: n, Data: randBytes(r, n)})
			if n > 1 {
				d.BufferViews = append(d.BufferViews, &gltf.BufferView{Buffer: len(d.Buffers) - 1, ByteOffset: n / 2, ByteLength: n - n/2})
			}
		}
		return d, files
	case "odd": // no views, odd length, spare bytes in the binary chunk
		return load(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":5}]}`, randBytes(r, 9)), files
	}
	panic(kind)
}

var startKinds = []string{"nil", "new", "text", "glb", "two", "odd", "many", "many"}

func newSession(kind string, r *rand.Rand) *msession {
	begin()
	s := &msession{r: r}
	r2 := rand.New(rand.NewSource(r.Int63()))
	sd := r2.Int63()
	s.doc, s.files = startDoc(kind, rand.New(rand.NewSource(sd)))
	s.twin, _ = startDoc(kind, rand.New(rand.NewSource(sd)))
	emit(M{"op": "start", "kind": kind, "doc": docProj(s.doc)})
	return s
}

// perform runs a writing operation, and records it. The same operation is performed on a
// second document unless it failed.
func (s *msession) perform(ev M, items []*mitem, f func(d *gltf.Document) (idx []int, names []string, err error)) {
	its := []M{}
	for _, it := range items {
		its = append(its, it.event())
	}
	var kept []*mitem
	for _, it := range items {
		if it.n() > 0 && it.c != "?" {
			kept = append(kept, it.clone())
		}
	}
	before := digest(s.doc)
	var idx []int
	var names []string
	o, err := try(func() (err error) { idx, names, err = f(s.doc); return })
	if o == "ok" {
		try(func() error { f(s.twin); return nil })
	} else {
		idx, names = nil, nil
	}
	ev["op"], ev["items"], ev["out"], ev["err"], ev["same"] = "write", its, o, errText(err), before == digest(s.doc)
	ev["idx"], ev["names"], ev["doc"] = append([]int{}, idx...), append([]string{}, names...), docProj(s.doc)
	emit(ev)
	if o == "ok" && ev["call"] != "WriteImage" {
		s.past = append(s.past, kept...)
	}
	if o == "ok" && len(idx) > 0 {
		used := items
		kind := "acc"
		switch ev["call"] {
		case "WritePrimitiveAttributes":
			used = nil
			for _, it := range items {
				if it.n() > 0 {
					used = append(used, it)
				}
			}
		case "WriteBufferView", "WriteBufferViewInterleaved":
			kind = "view"
		case "WriteImage":
			kind = "img"
		}
		if len(used) == len(idx) {
			for i, it := range used {
				s.ghosts = append(s.ghosts, mghost{kind, idx[i], it})
			}
		}
	}
	for _, it := range items { // the memory is the caller's again
		if it.v.IsValid() && it.c != "?" {
			fill(it.v, s.r)
		}
	}
}

// addBuffer is the user adding a buffer of his own, which is the last one then.
func (s *msession) addBuffer(n int) {
	b := randBytes(s.r, n)
	for _, d := range []*gltf.Document{s.doc, s.twin} {
		d.Buffers = append(d.Buffers, &gltf.Buffer{ByteLength: n, Data: append([]byte{}, b...)})
	}
	emit(M{"op": "buffer", "doc": docProj(s.doc)})
}

func (s *msession) readAll() {
	l := []M{}
	for _, g := range s.ghosts {
		m := M{"c": "", "t": "", "flat": []int{}, "kind": g.kind, "i": g.i}
		o, err := try(func() error {
			var v any
			var err error
			switch {
			case g.kind == "acc":
				v, err = modeler.ReadAccessor(s.doc, s.doc.Accessors[g.i], nil)
			case g.kind == "img":
				v, err = modeler.ReadBufferView(s.doc, s.doc.BufferViews[*s.doc.Images[g.i].BufferView])
			case g.it.c == "ubyte" && g.it.t == "SCALAR":
				v, err = modeler.ReadBufferView(s.doc, s.doc.BufferViews[g.i])
			default: // an accessor for the view
				c, t := ctypes[cindex(g.it.c)].c, ttypes[tindex(g.it.t)].t
				v, err = modeler.ReadAccessor(s.doc, &gltf.Accessor{BufferView: &g.i, ComponentType: c, Type: t, Count: g.it.n()}, nil)
			}
			if err != nil {
				return err
			}
			m["c"], m["t"] = goTypeNames(reflect.TypeOf(v))
			m["flat"] = flatOf(reflect.ValueOf(v))
			return nil
		})
		m["out"], m["err"] = o, errText(err)
		l = append(l, m)
	}
	emit(M{"op": "reads", "r": l})
}

// goTypeNames names the component and element type of a slice type.
func goTypeNames(t reflect.Type) (string, string) {
	if t == nil || t.Kind() != reflect.Slice {
		return "?", "?"
	}
	for _, c := range ctypes {
		for _, e := range ttypes {
			if elemType(c.name, e.name) == t.Elem() {
				return c.name, e.name
			}
		}
	}
	return "?", "?"
}

func (s *msession) reload(bin bool) {
	for _, b := range s.doc.Buffers {
		if b.ByteLength == 0 {
			return
		}
	}
	store := func(d *gltf.Document, files map[string][]byte) (got *gltf.Document, err error) {
		f := &memFS{files: files}
		var w bytes.Buffer
		e := gltf.NewEncoderFS(&w, f)
		e.AsBinary = bin
		if err := e.Encode(d); err != nil {
			return nil, err
		}
		got = new(gltf.Document)
		return got, gltf.NewDecoderFS(bytes.NewReader(w.Bytes()), f).Decode(got)
	}
	var got *gltf.Document
	o, err := try(func() (err error) { got, err = store(s.doc, s.files); return })
	ev := M{"op": "reload", "bin": bin, "out": o, "err": errText(err)}
	if o == "ok" {
		s.doc = got
		try(func() error {
			t, err := store(s.twin, map[string][]byte{})
			if err == nil {
				s.twin = t
			}
			return err
		})
	}
	ev["doc"] = docProj(s.doc)
	emit(ev)
}

func (s *msession) end() {
	s.readAll()
	emit(M{"op": "twin", "same": digest(s.doc) == digest(s.twin)})
}

// ---------------------------------------------------------------- operations

func (s *msession) accessor(c, t string, n int, target gltf.Target) {
	s.writeAccessor(newItem(c, t, n, s.r), target)
}

func (s *msession) writeAccessor(it *mitem, target gltf.Target) {
	s.perform(M{"call": "WriteAccessor", "target": targetName(target)}, []*mitem{it}, func(d *gltf.Document) ([]int, []string, error) {
		return []int{modeler.WriteAccessor(d, target, it.data())}, nil, nil
	})
}

func (s *msession) view(c, t string, n int, target gltf.Target) {
	s.writeView(newItem(c, t, n, s.r), target)
}

func (s *msession) writeView(it *mitem, target gltf.Target) {
	s.perform(M{"call": "WriteBufferView", "target": targetName(target)}, []*mitem{it}, func(d *gltf.Document) ([]int, []string, error) {
		return []int{modeler.WriteBufferView(d, target, it.data())}, nil, nil
	})
}

var helperTypes = map[string][][2]string{
	"WriteIndices":             {{"ushort", "SCALAR"}, {"uint", "SCALAR"}},
	"WriteNormal":              {{"float", "VEC3"}},
	"WriteTangent":             {{"float", "VEC4"}},
	"WriteTextureCoord":        {{"ubyte", "VEC2"}, {"ushort", "VEC2"}, {"float", "VEC2"}},
	"WriteWeights":             {{"ubyte", "VEC4"}, {"ushort", "VEC4"}, {"float", "VEC4"}},
	"WriteJoints":              {{"ubyte", "VEC4"}, {"ushort", "VEC4"}},
	"WriteInverseBindMatrices": {{"float", "MAT4"}},
	"WritePosition":            {{"float", "VEC3"}},
	"WriteColor":               {{"ubyte", "VEC4"}, {"ubyte", "VEC3"}, {"ushort", "VEC4"}, {"ushort", "VEC3"}, {"float", "VEC3"}, {"float", "VEC4"}},
}

var helperNames = []string{"WriteIndices", "WriteNormal", "WriteTangent", "WriteTextureCoord", "WriteWeights", "WriteJoints", "WriteInverseBindMatrices", "WritePosition", "WriteColor"}

func (s *msession) helper(name, c, t string, n int) {
	it := newItem(c, t, n, s.r)
	et := ""
	if it.v.IsValid() {
		et = it.v.Type().String()
	}
	if strings.HasPrefix(et, "[]color") && name != "WriteColor" && name != "WriteAccessor" { // only WriteColor is given colours
		for strings.HasPrefix(it.v.Type().String(), "[]color") {
			it = newItem(c, t, n, s.r)
		}
	}
	s.writeHelper(name, it)
}

func (s *msession) writeHelper(name string, it *mitem) {
	s.perform(M{"call": name}, []*mitem{it}, func(d *gltf.Document) ([]int, []string, error) {
		var i int
		switch x := it.data(); name {
		case "WriteIndices":
			i = modeler.WriteIndices(d, x)
		case "WriteNormal":
			i = modeler.WriteNormal(d, x.([][3]float32))
		case "WriteTangent":
			i = modeler.WriteTangent(d, x.([][4]float32))
		case "WriteTextureCoord":
			i = modeler.WriteTextureCoord(d, x)
		case "WriteWeights":
			i = modeler.WriteWeights(d, x)
		case "WriteJoints":
			i = modeler.WriteJoints(d, x)
		case "WriteInverseBindMatrices":
			i = modeler.WriteInverseBindMatrices(d, x.([][4][4]float32))
		case "WritePosition":
			i = modeler.WritePosition(d, x.([][3]float32))
		case "WriteColor":
			i = modeler.WriteColor(d, x)
		}
		return []int{i}, nil, nil
	})
}

func (s *msession) group(items []*mitem, accs bool) {
	l := []any{}
	for _, it := range items {
		l = append(l, it.data())
	}
	if accs {
		s.perform(M{"call": "WriteAccessorsInterleaved"}, items, func(d *gltf.Document) ([]int, []string, error) {
			i, err := modeler.WriteAccessorsInterleaved(d, l...)
			return i, nil, err
		})
		return
	}
	s.perform(M{"call": "WriteBufferViewInterleaved"}, items, func(d *gltf.Document) ([]int, []string, error) {
		i, err := modeler.WriteBufferViewInterleaved(d, l...)
		return []int{i}, nil, err
	})
}

func (s *msession) attrs(items []*mitem) {
	var l []modeler.PrimitiveAttribute
	for _, it := range items {
		l = append(l, modeler.PrimitiveAttribute{Name: it.name, Data: it.data()})
	}
	s.perform(M{"call": "WritePrimitiveAttributes"}, items, func(d *gltf.Document) ([]int, []string, error) {
		m, err := modeler.WritePrimitiveAttributes(d, l...)
		var idx []int
		var names []string
		if err == nil { // in the order of the attributes; others at the end
			seen := map[string]bool{}
			for _, it := range items {
				if i, ok := m[it.name]; ok && it.n() > 0 {
					idx, names = append(idx, i), append(names, it.name)
					seen[it.name] = true
				}
			}
			for k, i := range m {
				if !seen[k] {
					idx, names = append(idx, i), append(names, k)
				}
			}
		}
		return idx, names, err
	})
}

// randPositions writes positions whose extremes are anywhere.
func (s *msession) randPositions(n int) {
	it := newItem("float", "VEC3", n, s.r)
	p := it.v.Interface().([][3]float32)
	for i := range p {
		for k := range p[i] {
			p[i][k] = float32(s.r.Intn(1000))
		}
	}
	for k := 0; k < 3; k++ {
		p[pick(s.r, 0, n-1, n-2, s.r.Intn(n))][k] = -5
		p[pick(s.r, 0, n-1, n-3, s.r.Intn(n))][k] = 2000
	}
	it.flat = flatOf(it.v)
	s.writeHelper("WritePosition", it)
}

// brokenReader gives some bytes and fails.
type brokenReader struct {
	b    []byte
	with bool // the error comes together with the last bytes
	err  error
}

func (b *brokenReader) Read(p []byte) (int, error) {
	n := copy(p, b.b)
	b.b = b.b[n:]
	if len(b.b) == 0 && (b.with || n == 0) {
		return n, b.err
	}
	return n, nil
}

func (s *msession) image(n int, broken bool) {
	r := s.r
	name, mime := pick(r, "", "img", "x y"), pick(r, "image/png", "image/jpeg", "")
	b := randBytes(r, n)
	if last := s.image1; last != nil && len(last.b) > 0 && !broken && r.Intn(3) == 0 { // like the image before, in all but one respect or in all
		name, mime, b = last.name, last.mime, append([]byte(nil), last.b...)
		switch r.Intn(5) {
		case 0:
			name += "."
		case 1:
			mime = "image/other"
		case 2, 3:
			b[r.Intn(len(b))]++
		}
	}
	s.image1 = &lastImage{name, mime, b}
	it := &mitem{c: "ubyte", t: "SCALAR", v: reflect.ValueOf(b)}
	it.flat = flatOf(it.v)
	k := r.Intn(5)
	portion := portionKinds[r.Intn(len(portionKinds))]
	sd := r.Int63()
	s.perform(M{"call": "WriteImage", "broken": broken, "name": name, "mime": mime}, []*mitem{it}, func(d *gltf.Document) ([]int, []string, error) {
		b := it.v.Bytes()
		var rd io.Reader
		switch {
		case broken:
			rd = &brokenReader{append([]byte(nil), b...), k%2 == 0, nextReadFailure()}
		case k == 0:
			rd = bytes.NewBuffer(b)
		case k == 1:
			rd = bytes.NewReader(b)
		default:
			rd = portions(portion, append([]byte(nil), b...), n/2, rand.New(rand.NewSource(sd)))
		}
		i, err := modeler.WriteImage(d, name, mime, rd)
		return []int{i}, nil, err
	})
}

var attrPool = []struct{ name, helper string }{
	{gltf.POSITION, "WritePosition"}, {gltf.NORMAL, "WriteNormal"}, {gltf.TANGENT, "WriteTangent"}, {gltf.TEXCOORD_0, "WriteTextureCoord"}, {gltf.TEXCOORD_1, "WriteTextureCoord"},
	{gltf.JOINTS_0, "WriteJoints"}, {gltf.WEIGHTS_0, "WriteWeights"}, {gltf.COLOR_0, "WriteColor"}, {"_X", ""}, {"_CUSTOM", ""},
}

func (s *msession) randAttrs(n int, spoil string) {
	r := s.r
	var items []*mitem
	k := 1 + r.Intn(5)
	for _, p := range r.Perm(len(attrPool))[:k] {
		a := attrPool[p]
		c, t := randType(r)
		if a.helper != "" {
			x := helperTypes[a.helper]
			y := x[r.Intn(len(x))]
			c, t = y[0], y[1]
		}
		it := newItem(c, t, n, r)
		if a.name != gltf.COLOR_0 {
			for strings.HasPrefix(it.v.Type().String(), "[]color") {
				it = newItem(c, t, n, r)
			}
		}
		switch r.Intn(6) {
		case 0:
			it = &mitem{c: c, t: t, flat: []int{}}
			if r.Intn(2) == 0 {
				it.v = reflect.Zero(reflect.SliceOf(elemType(c, t)))
			}
		case 1:
			if r.Intn(2) == 0 {
				it = newItem(c, t, 0, r)
			}
		}
		it.name = a.name
		items = append(items, it)
	}
	at := r.Intn(len(items) + 1)
	put := func(it *mitem) {
		items = append(items[:at], append([]*mitem{it}, items[at:]...)...)
	}
	drop := func(name string) {
		var l []*mitem
		for _, it := range items {
			if it.name != name {
				l = append(l, it)
			}
		}
		items = l
		at = r.Intn(len(items) + 1)
	}
	switch spoil {
	case "type": // wrong for one of the checked names
		name := pick(r, gltf.POSITION, gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.WEIGHTS_0, gltf.JOINTS_0, gltf.COLOR_0)
		drop(name)
		for {
			c, t := randType(r)
			if r.Intn(4) == 0 {
				c, t = "?", "SCALAR"
			}
			ok := false
			for _, a := range attrPool {
				if a.name == name {
					for _, x := range helperTypes[a.helper] {
						ok = ok || x == [2]string{c, t}
					}
				}
			}
			if !ok {
				it := newItem(c, t, n, r)
				it.name = name
				put(it)
				break
			}
		}
	case "length":
		drop("_Y")
		c, t := randType(r)
		it := newItem(c, t, n+1+r.Intn(2), r)
		it.name = "_Y"
		put(it)
		full := false
		for _, x := range items {
			full = full || x != it && x.n() > 0
		}
		if !full {
			x := newItem("float", "VEC3", n, r)
			x.name = "_Z"
			put(x)
		}
	}
	s.attrs(items)
}

func (s *msession) randGroup(spoil bool) {
	r := s.r
	n := randN(r)
	var items []*mitem
	for k := 2 + r.Intn(3); k > 0; k-- {
		c, t := randType(r)
		items = append(items, newItem(c, t, n, r))
	}
	if spoil {
		i := r.Intn(len(items))
		items[i] = newItem(items[i].c, items[i].t, n+1+r.Intn(3), r)
	} else if r.Intn(8) == 0 {
		items = items[:1]
	}
	s.group(items, r.Intn(4) > 0)
}

func (s *msession) do(kind string) {
	r := s.r
	tg := pick(r, gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer)
	switch kind {
	case "acc":
		if r.Intn(2) == 0 {
			name := pick(r, helperNames...)
			x := helperTypes[name]
			y := x[r.Intn(len(x))]
			s.helper(name, y[0], y[1], randN(r))
		} else {
			c, t := randType(r)
			s.accessor(c, t, randN(r), tg)
		}
	case "odd":
		s.accessor(pick(r, "byte", "ubyte", "short", "ushort"), pick(r, "SCALAR", "VEC3", "MAT2", "MAT3"), pick(r, 1, 3, 5), tg)
	case "empty":
		c, t := randType(r)
		s.accessor(c, t, 0, tg)
	case "group":
		s.randGroup(false)
	case "badgroup":
		s.randGroup(true)
	case "attrs":
		s.randAttrs(randN(r), "")
	case "badattr":
		s.randAttrs(randN(r), pick(r, "type", "length"))
	case "raw":
		if r.Intn(3) > 0 {
			n := 1 + r.Intn(9)
			if r.Intn(8) == 0 {
				n = 60 + r.Intn(40)
			}
			s.view("ubyte", "SCALAR", n, tg)
			if r.Intn(4) == 0 {
				s.again(tg)
			}
		} else {
			c, t := randType(r)
			s.view(c, t, randN(r), tg)
		}
	case "image":
		if r.Intn(8) == 0 {
			s.image(60+r.Intn(40), false)
			s.image(3, false)
		} else {
			s.image(1+r.Intn(9), false)
		}
	case "badimage":
		s.image(r.Intn(9), true)
	case "badtype":
		name := pick(r, "WriteIndices", "WriteTextureCoord", "WriteWeights", "WriteJoints", "WriteColor")
		c, t := randType(r)
		if r.Intn(4) == 0 {
			c, t = "?", "SCALAR"
		}
		s.helper(name, c, t, randN(r))
	case "again":
		s.again(tg)
	case "buffer":
		n := s.r.Intn(9)
		if k := len(s.doc.Buffers); k > 0 && s.r.Intn(2) == 0 {
			n = len(s.doc.Buffers[s.r.Intn(k)].Data)
		}
		if n < 4096 {
			s.addBuffer(n)
		}
	case "text":
		s.reload(false)
	case "glb":
		s.reload(true)
	}
}

func modelerAll(r *rand.Rand) {
	scenarios(func(line []byte) {
		var sc struct {
			Start string
			Ops   []string
		}
		check(json.Unmarshal(line, &sc))
		s := newSession(sc.Start, r)
		for _, k := range sc.Ops {
			s.do(k)
		}
		s.end()
	})
	kinds := []string{"acc", "acc", "acc", "odd", "odd", "group", "group", "attrs", "attrs", "raw", "raw", "image", "badgroup", "badattr", "badattr", "badimage", "badtype", "empty", "buffer", "text", "glb", "again", "again", "again"}
	for i := tiers(150, 4000); i > 0; i-- {
		s := newSession(startKinds[r.Intn(len(startKinds))], r)
		for k := 2 + r.Intn(10); k > 0; k-- {
			s.do(kinds[r.Intn(len(kinds))])
			if r.Intn(6) == 0 {
				s.readAll()
			}
		}
		s.end()
	}
	// every type, with every target
	for _, c := range ctypes {
		for _, t := range ttypes {
			s := newSession(startKinds[r.Intn(len(startKinds))], r)
			for _, tg := range []gltf.Target{gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer} {
				for _, n := range []int{1, 2, 3} {
					s.accessor(c.name, t.name, n, tg)
				}
				s.view(c.name, t.name, 3, tg)
			}
			s.reload(r.Intn(2) == 0)
			s.end()
		}
	}
	// every helper with every type
	for _, h := range helperNames {
		for _, c := range append(ctypes, ctypes[0]) {
			for _, t := range ttypes {
				permitted := false
				for _, x := range helperTypes[h] {
					permitted = permitted || x == [2]string{c.name, t.name}
				}
				if len(helperTypes[h]) == 1 && !permitted { // the compiler refuses
					continue
				}
				s := newSession("odd", r)
				for n := 1; n < 4; n++ {
					s.helper(h, c.name, t.name, n)
				}
				s.end()
			}
		}
	}
	// the same data twice, by every two operations that take it
	for _, c := range ctypes {
		for _, t := range ttypes {
			ops := []string{"none", "array", "element"}
			for _, h := range helperNames {
				for _, x := range helperTypes[h] {
					if x == [2]string{c.name, t.name} {
						ops = append(ops, h)
					}
				}
			}
			if len(ops) == 3 && !thorough {
				continue
			}
			put := func(s *msession, op string, it *mitem) {
				switch op {
				case "none":
					s.writeAccessor(it, gltf.TargetNone)
				case "array":
					s.writeAccessor(it, gltf.TargetArrayBuffer)
				case "element":
					s.writeAccessor(it, gltf.TargetElementArrayBuffer)
				default:
					s.writeHelper(op, it)
				}
			}
			for _, a := range ops {
				for _, b := range ops {
					s := newSession(startKinds[r.Intn(len(startKinds))], r)
					it := newItem(c.name, t.name, 1+r.Intn(4), r)
					for strings.HasPrefix(it.v.Type().String(), "[]color") {
						it = newItem(c.name, t.name, 1, r)
					}
					jt := it.clone()
					put(s, a, it)
					put(s, b, jt)
					s.end()
				}
			}
		}
	}
	// nearly the same bytes twice
	for _, n := range []int{1, 2, 4, 8, 15, 16, 17, 32, 33, 64, 65, 100, 300} {
		for k := 0; k < 4; k++ {
			s := newSession(startKinds[r.Intn(len(startKinds))], r)
			tg := pick(r, gltf.TargetNone, gltf.TargetArrayBuffer)
			it := newItem("ubyte", "SCALAR", n, r)
			jt := it.clone()
			if k < 3 {
				jt.v.Bytes()[[]int{0, n / 2, n - 1}[k]]++
				jt.flat = flatOf(jt.v)
			}
			s.writeView(it, tg)
			if r.Intn(2) == 0 {
				s.do("acc")
			}
			s.writeView(jt, tg)
			s.end()
		}
	}
	// large data
	large := []func(s *msession, n int){
		func(s *msession, n int) { s.helper("WritePosition", "float", "VEC3", n) },
		func(s *msession, n int) { s.randPositions(n) },
		func(s *msession, n int) { s.helper("WriteIndices", pick(r, "ushort", "uint"), "SCALAR", n) },
		func(s *msession, n int) { s.helper("WriteJoints", "ubyte", "VEC4", n) },
		func(s *msession, n int) { s.view("ubyte", "SCALAR", n*5+r.Intn(4), gltf.TargetNone) },
		func(s *msession, n int) { s.image(n*13+r.Intn(4), false) },
		func(s *msession, n int) {
			s.group([]*mitem{newItem("ushort", "VEC3", n, r), newItem("byte", "SCALAR", n, r)}, true)
		},
		func(s *msession, n int) {
			c, t := randType(r)
			s.accessor(c, t, n/4, gltf.TargetArrayBuffer)
		},
	}
	for k := 0; k < tiers(1, 6); k++ {
		for i, f := range large {
			s := newSession(startKinds[r.Intn(len(startKinds))], r)
			n := pick(r, 1023, 1025, 4097, 5003)
			if i < 2 {
				n = 4097 + r.Intn(1500)
			}
			if i == 5 {
				n = 5500
			}
			f(s, n)
			s.end()
		}
	}
	// behind a lot of data or many entries
	for i := 0; i < tiers(10, 60); i++ {
		s := newSession(pick(r, "behind", "crowd"), r)
		for k := 4; k > 0; k-- {
			s.do(pick(r, "acc", "acc", "group", "group", "attrs", "attrs", "raw", "image", "odd", "badattr"))
		}
		s.end()
	}
	// wide elements
	for i := 0; i < tiers(24, 200); i++ {
		s := newSession(startKinds[r.Intn(len(startKinds))], r)
		var items []*mitem
		n := 1 + r.Intn(4)
		for size := pick(r, 200, 250, 260, 500, 700) + r.Intn(8); size > 0; {
			c, t := randType(r)
			if i%4 < 2 {
				c, t = pick(r, "float", "uint"), pick(r, "VEC4", "MAT3", "MAT4")
			}
			it := newItem(c, t, n, r)
			if strings.HasPrefix(it.v.Type().String(), "[]color") {
				continue
			}
			it.name = fmt.Sprint("_A", len(items))
			items = append(items, it)
			size -= len(it.flat) / n
		}
		if i%8 == 0 {
			it := newItem("float", "VEC3", n, r)
			it.name = gltf.POSITION
			items = append(items, it)
		}
		var copies []*mitem
		for _, it := range items {
			copies = append(copies, it.clone())
		}
		switch i % 3 {
		case 0:
			s.attrs(items)
		case 1:
			s.group(items, true)
		case 2:
			s.group(items, false)
		}
		s.readAll()
		if r.Intn(2) == 0 {
			s.reload(r.Intn(2) == 0)
			s.attrs(copies)
		}
		s.end()
	}
	// positions: orders of values, zeros of both signs, extremes
	vals := []float32{0, float32(math.Copysign(0, -1)), 1, -1, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32}
	for i := 0; i < tiers(120, 2000); i++ {
		s := newSession("nil", r)
		n := 1 + i%4
		p := make([][3]float32, n)
		for j := range p {
			for k := range p[j] {
				p[j][k] = vals[r.Intn(len(vals))]
			}
		}
		pos := &mitem{name: gltf.POSITION, c: "float", t: "VEC3", v: reflect.ValueOf(p), flat: flatOf(reflect.ValueOf(p))}
		if i%2 == 0 {
			s.perform(M{"call": "WritePosition"}, []*mitem{pos}, func(d *gltf.Document) ([]int, []string, error) {
				return []int{modeler.WritePosition(d, p)}, nil, nil
			})
		} else {
			u := newItem("float", "VEC2", n, r)
			u.name = gltf.TEXCOORD_0
			if i%4 == 1 {
				s.attrs([]*mitem{pos, u})
			} else {
				s.attrs([]*mitem{u, pos})
			}
		}
		s.end()
	}
	// pairs of types in groups
	for i := range ctypes {
		for j := range ttypes {
			for a := range ctypes {
				for b := range ttypes {
					if !thorough && r.Intn(8) > 0 {
						continue
					}
					s := newSession(startKinds[r.Intn(len(startKinds))], r)
					n := 1 + r.Intn(3)
					s.group([]*mitem{newItem(ctypes[i].name, ttypes[j].name, n, r), newItem(ctypes[a].name, ttypes[b].name, n, r)}, true)
					s.end()
				}
			}
		}
	}
}
