package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"unsafe"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() { drivers["access"] = access }

// reader is one of the functions that read accessors.
type reader struct {
	name string
	f    reflect.Value
}

func readers() (l []reader) {
	for _, x := range []struct {
		n string
		f any
	}{
		{"ReadAccessor", modeler.ReadAccessor}, {"ReadIndices", modeler.ReadIndices}, {"ReadNormal", modeler.ReadNormal},
		{"ReadTangent", modeler.ReadTangent}, {"ReadTextureCoord", modeler.ReadTextureCoord}, {"ReadWeights", modeler.ReadWeights},
		{"ReadJoints", modeler.ReadJoints}, {"ReadPosition", modeler.ReadPosition}, {"ReadColor", modeler.ReadColor},
		{"ReadColor64", modeler.ReadColor64}, {"ReadInverseBindMatrices", modeler.ReadInverseBindMatrices},
	} {
		l = append(l, reader{x.n, reflect.ValueOf(x.f)})
	}
	return l
}

// call reads an accessor with the given memory (invalid: nil).
func (f reader) call(d *gltf.Document, a *gltf.Accessor, buf reflect.Value) (res reflect.Value, outcome string, err error) {
	if !buf.IsValid() {
		buf = reflect.Zero(f.f.Type().In(2))
	}
	outcome, err = try(func() error {
		v := f.f.Call([]reflect.Value{reflect.ValueOf(d), reflect.ValueOf(a), buf})
		if e, _ := v[1].Interface().(error); e != nil {
			return e
		}
		res = v[0]
		if res.Kind() == reflect.Interface {
			res = res.Elem()
		}
		return nil
	})
	return
}

// typedFor lists the typed readers that are meant for a type.
func typedFor(c gltf.ComponentType, t gltf.AccessorType) (l []string) {
	switch t {
	case gltf.AccessorScalar:
		l = append(l, "ReadIndices")
	case gltf.AccessorVec2:
		l = append(l, "ReadTextureCoord")
	case gltf.AccessorVec3:
		l = append(l, "ReadColor", "ReadColor64", "ReadNormal", "ReadPosition")
	case gltf.AccessorVec4:
		l = append(l, "ReadWeights", "ReadJoints", "ReadTangent", "ReadColor", "ReadColor64")
	case gltf.AccessorMat4:
		l = append(l, "ReadInverseBindMatrices")
	}
	return l
}

func readerNamed(n string) reader {
	for _, f := range readers() {
		if f.name == n {
			return f
		}
	}
	panic(n)
}

// ---------------------------------------------------------------- documents

func accDoc(d *gltf.Document) M {
	bufs, views := []M{}, []M{}
	for _, b := range d.Buffers {
		if b == nil {
			bufs = append(bufs, M{"nil": true, "data": []int{}})
		} else {
			bufs = append(bufs, M{"nil": false, "data": ints(b.Data)})
		}
	}
	for _, v := range d.BufferViews {
		views = append(views, viewProj(v))
	}
	return M{"bufs": bufs, "views": views}
}

func viewProj(v *gltf.BufferView) M {
	if v == nil {
		return M{"nil": true, "b": 0, "off": 0, "len": 0, "stride": 0}
	}
	return M{"nil": false, "b": sat(v.Buffer), "off": sat(v.ByteOffset), "len": sat(v.ByteLength), "stride": sat(v.ByteStride)}
}

func accProj(a *gltf.Accessor) M {
	if a == nil {
		a = new(gltf.Accessor)
		m := accProj(a)
		m["nil"] = true
		return m
	}
	m := M{"nil": false, "bv": -1, "hasView": a.BufferView != nil, "off": sat(a.ByteOffset), "c": cname(a.ComponentType), "t": tname(a.Type), "n": sat(a.Count),
		"sparse": a.Sparse != nil, "sn": 0, "ic": "", "ib": 0, "ioff": 0, "vb": 0, "voff": 0}
	if a.BufferView != nil {
		m["bv"] = sat(*a.BufferView)
	}
	if s := a.Sparse; s != nil {
		m["sn"], m["ic"], m["ib"], m["ioff"], m["vb"], m["voff"] = sat(s.Count), cname(s.Indices.ComponentType), sat(s.Indices.BufferView), sat(s.Indices.ByteOffset), sat(s.Values.BufferView), sat(s.Values.ByteOffset)
	}
	return m
}

// accBuilder lays out accessors in a document.
type accBuilder struct {
	d     *gltf.Document
	r     *rand.Rand
	apart bool // indices have views of their own
}

func quiet(b []byte) []byte { // no NaNs
	for i := range b {
		if b[i]&0x7f == 0x7f {
			b[i] &= 0xbf
		}
	}
	return b
}

// room appends n bytes and some more to a buffer, possibly a new one, and returns where.
func (b *accBuilder) room(n, align, before, after int, data []byte) (buf, off int) {
	if len(b.d.Buffers) == 0 || b.r.Intn(4) == 0 {
		b.d.Buffers = append(b.d.Buffers, &gltf.Buffer{})
	}
	buf = b.r.Intn(len(b.d.Buffers))
	if b.d.Buffers[buf] == nil { // damaged
		b.d.Buffers = append(b.d.Buffers, &gltf.Buffer{})
		buf = len(b.d.Buffers) - 1
	}
	x := b.d.Buffers[buf]
	fillTo := (len(x.Data)+before+align-1)/align*align - len(x.Data)
	x.Data = append(x.Data, quiet(randBytes(b.r, fillTo))...)
	off = len(x.Data)
	x.Data = append(x.Data, data...)
	x.Data = append(x.Data, quiet(randBytes(b.r, after))...)
	x.ByteLength = len(x.Data)
	return
}

func (b *accBuilder) view(n, align, before, after, stride int, data []byte) int {
	buf, off := b.room(n, align, before, after, data)
	b.d.BufferViews = append(b.d.BufferViews, &gltf.BufferView{Buffer: buf, ByteOffset: off, ByteLength: n, ByteStride: stride,
		Target: pick(b.r, gltf.TargetNone, gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer), Name: pick(b.r, "", "v")})
	return len(b.d.BufferViews) - 1
}

// elements makes a view with room for n elements at an offset.
func (b *accBuilder) elements(c, t string, n, off, before, stride, slack int) int {
	e := stride
	if e == 0 {
		e = esize(c, t)
	}
	ln := off
	if n > 0 {
		ln += (n-1)*e + esize(c, t)
	}
	ln += slack
	cs := int(ctypes[cindex(c)].t.Size())
	return b.view(ln, cs, before*cs, b.r.Intn(5), stride, quiet(randBytes(b.r, ln)))
}

type accScn struct {
	Kind, C, T, IC   string
	N, Off, Voff, SN int
	Over             int
	Base             any
	D                []struct{ F, V string }
}

func (b *accBuilder) accessor(s accScn, base bool) *gltf.Accessor {
	a := &gltf.Accessor{ComponentType: ctypes[cindex(s.C)].c, Type: ttypes[tindex(s.T)].t, Count: s.N, Normalized: b.r.Intn(4) == 0, Name: pick(b.r, "", "a")}
	switch b.r.Intn(5) { // the limits may be anything
	case 0:
		a.Min, a.Max = []float64{0}, []float64{1}
	case 1:
		a.Min, a.Max = make([]float64, 16), []float64{1, 2, 3}
	}
	cs := int(ctypes[cindex(s.C)].t.Size())
	if base {
		stride := 0
		if s.Over >= 0 {
			stride = esize(s.C, s.T) + (s.Over+cs-1)/cs*cs
		}
		a.ByteOffset = (s.Off + cs - 1) / cs * cs
		a.BufferView = gltf.Index(b.elements(s.C, s.T, s.N, a.ByteOffset, s.Voff, stride, pick(b.r, 0, 0, 1, 7)))
	}
	if s.IC != "none" && s.IC != "" {
		sn := s.SN
		if s.N == 0 {
			sn = 0
		}
		is := int(ctypes[cindex(s.IC)].t.Size())
		pre := is * b.r.Intn(3)
		idx := randBytes(b.r, pre+sn*is)
		last := -1
		for i := 0; i < sn; i++ {
			x := b.r.Intn(s.N)
			if sn <= s.N && b.r.Intn(2) == 0 && last+1 < s.N { // ascending, where possible
				x = last + 1 + b.r.Intn(s.N-last-1)
			}
			if s.IC == "ubyte" && x > 255 {
				x = 255
			}
			last = x
			switch is {
			case 1:
				idx[pre+i] = byte(x)
			case 2:
				binary.LittleEndian.PutUint16(idx[pre+2*i:], uint16(x))
			case 4:
				binary.LittleEndian.PutUint32(idx[pre+4*i:], uint32(x))
			}
		}
		vo := cs * b.r.Intn(3)
		a.Sparse = &gltf.Sparse{Count: sn,
			Indices: gltf.SparseIndices{BufferView: b.view(len(idx), is, b.r.Intn(3)*is, b.r.Intn(4), 0, idx), ByteOffset: pre, ComponentType: ctypes[cindex(s.IC)].c},
			Values:  gltf.SparseValues{BufferView: b.elements(s.C, s.T, sn, vo, b.r.Intn(3), 0, 0), ByteOffset: vo}}
		switch v := &a.Sparse.Values; b.r.Intn(8) {
		case 0: // in the view of the elements
			if base && sn <= s.N {
				e := b.d.BufferViews[*a.BufferView].ByteStride
				if e == 0 {
					e = esize(s.C, s.T)
				}
				v.BufferView, v.ByteOffset = *a.BufferView, a.ByteOffset+e*b.r.Intn(s.N-sn+1)
			}
		case 1: // in the view of the indices
			if b.apart {
				break
			}
			at := (len(idx) + cs - 1) / cs * cs
			all := append(append(append([]byte{}, idx...), make([]byte, at-len(idx))...), quiet(randBytes(b.r, sn*esize(s.C, s.T)))...)
			both := b.view(len(all), 4, 4*b.r.Intn(3), b.r.Intn(4), 0, all)
			a.Sparse.Indices.BufferView, v.BufferView, v.ByteOffset = both, both, at
		}
	}
	return a
}

func randAccScn(r *rand.Rand, maxN int) (accScn, bool) {
	c, t := randType(r)
	s := accScn{C: c, T: t, N: r.Intn(maxN), Off: r.Intn(12), Voff: r.Intn(5), Over: pick(r, -1, -1, 0, 1, 2, 4, 9), IC: "none"}
	base := r.Intn(8) > 0
	if r.Intn(2) == 0 {
		s.IC, s.SN = pick(r, "ubyte", "ushort", "uint"), r.Intn(6)
	}
	return s, base
}

// dirty makes memory of a reader's kind with random contents; for bytes, sometimes misaligned.
func dirty(t reflect.Type, n int, r *rand.Rand) reflect.Value {
	if t.Elem().Kind() == reflect.Uint8 {
		k := r.Intn(4)
		b := make([]byte, n+k, n+k+r.Intn(9))
		r.Read(b)
		return reflect.ValueOf(b[k:])
	}
	k := r.Intn(3)
	v := reflect.MakeSlice(t, n+k, n+k+r.Intn(4))
	fill(v, r)
	return v.Slice(k, n+k)
}

func randScratch(f reader, a *gltf.Accessor, r *rand.Rand) reflect.Value {
	n := 0
	if a != nil && a.Count > 0 && a.Count < 300000 {
		n = a.Count
		if f.name == "ReadAccessor" {
			n *= gltf.SizeOfElement(a.ComponentType, a.Type)
		}
	}
	switch r.Intn(5) {
	case 0:
		return reflect.Value{}
	case 1:
		return dirty(f.f.Type().In(2), 0, r)
	case 2:
		return dirty(f.f.Type().In(2), n, r)
	case 3:
		return dirty(f.f.Type().In(2), n+r.Intn(40), r)
	}
	return dirty(f.f.Type().In(2), r.Intn(n+1), r)
}

func resultOf(res reflect.Value, o string) M {
	m := M{"out": o, "gt": "", "flat": []int{}, "n": -1}
	if o == "ok" {
		if !res.IsValid() || res.Kind() != reflect.Slice {
			m["gt"] = "no slice"
			return m
		}
		m["gt"], m["n"] = ascii(res.Type().String()), sat(res.Len())
		if res.Len() <= 4000 {
			m["flat"] = flatOf(res)
		} else {
			h := sha256.Sum256(memory(res)) // too many to record
			m["flat"] = ints(h[:])
		}
	}
	return m
}

func with(m, x M) M {
	for k, v := range x {
		m[k] = v
	}
	return m
}

func readEvent(d *gltf.Document, a *gltf.Accessor, r *rand.Rand) M {
	if noHang(a) {
		return nil
	}
	f := readerNamed("ReadAccessor")
	res, o, err := f.call(d, a, randScratch(f, a, r))
	return with(M{"op": "read", "d": accDoc(d), "a": accProj(a), "err": errText(err)}, resultOf(res, o))
}

func typedEvent(d *gltf.Document, a *gltf.Accessor, name string, r *rand.Rand) M {
	if noHang(a) {
		return nil
	}
	f := readerNamed(name)
	res, o, err := f.call(d, a, randScratch(f, a, r))
	m := with(M{"op": "typed", "fn": name, "d": accDoc(d), "a": accProj(a), "err": errText(err)}, resultOf(res, o))
	return m
}

func viewEvent(d *gltf.Document, v *gltf.BufferView) M {
	m := M{"op": "view", "d": accDoc(d), "v": viewProj(v), "bytes": []int{}}
	o, err := try(func() error {
		b, err := modeler.ReadBufferView(d, v)
		if err == nil {
			if len(b) > 4000 {
				b = b[:4000]
			}
			m["bytes"] = ints(b)
		}
		return err
	})
	m["out"], m["err"] = o, errText(err)
	return m
}

// noHang tells that an accessor denotes an amount of zeros that would exhaust the memory.
func noHang(a *gltf.Accessor) bool {
	return a != nil && a.BufferView == nil && a.Count > 2000 && a.Count != math.MaxInt
}

func emitIf(m M) {
	if m != nil {
		emit(m)
	}
}

func access(r *rand.Rand) {
	switch scope {
	case "C18":
		scenarios(func(line []byte) {
			var s accScn
			check(json.Unmarshal(line, &s))
			begin()
			b := &accBuilder{d: new(gltf.Document), r: r}
			a := b.accessor(s, s.Base.(bool))
			emitIf(readEvent(b.d, a, r))
			for _, fn := range typedFor(a.ComponentType, a.Type) {
				emitIf(typedEvent(b.d, a, fn, r))
			}
		})
		for i := 0; i < tiers(1500, 30000); i++ {
			begin()
			b := &accBuilder{d: new(gltf.Document), r: r}
			for k := r.Intn(3); k >= 0; k-- {
				s, base := randAccScn(r, pick(r, 4, 10, 10, 40))
				if r.Intn(4) == 0 { // types the typed readers take
					s.C, s.T = pick(r, "ubyte", "ushort", "float", "uint"), pick(r, "SCALAR", "VEC2", "VEC3", "VEC4", "MAT4")
				}
				a := b.accessor(s, base)
				emitIf(readEvent(b.d, a, r))
				for _, fn := range typedFor(a.ComponentType, a.Type) {
					emitIf(typedEvent(b.d, a, fn, r))
				}
			}
			if len(b.d.BufferViews) > 0 {
				emit(viewEvent(b.d, b.d.BufferViews[r.Intn(len(b.d.BufferViews))]))
			}
		}
		for i := 0; i < tiers(12, 200); i++ { // larger than the pooled memory
			begin()
			b := &accBuilder{d: new(gltf.Document), r: r}
			s, base := randAccScn(r, 10)
			s.N = 130 + r.Intn(300)
			if s.IC != "none" && r.Intn(2) == 0 {
				s.SN = 100 + r.Intn(150)
			}
			emitIf(readEvent(b.d, b.accessor(s, base), r))
		}
		largeReads(r, "ReadAccessor")
		largeReads(r, "ReadIndices", "ReadJoints", "ReadPosition", "ReadNormal", "ReadTangent", "ReadInverseBindMatrices")
		for i := 0; i < tiers(30, 200); i++ {
			largeView(readSizes[r.Intn(len(readSizes))]*(1+r.Intn(20)), r)
		}
	case "C20":
		scenarios(func(line []byte) {
			var s accScn
			check(json.Unmarshal(line, &s))
			begin()
			d, a := badDoc(s.Base.(string), r)
			for _, x := range s.D {
				damageAccessor(d, &a, x.F, x.V)
			}
			badEvents(d, a, r)
		})
		for i := 0; i < tiers(2500, 60000); i++ {
			begin()
			b := &accBuilder{d: new(gltf.Document), r: r}
			s, base := randAccScn(r, 10)
			a := b.accessor(s, base)
			for k := 1 + r.Intn(4); k > 0; k-- {
				randDamage(b.d, &a, r)
			}
			badEvents(b.d, a, r)
		}
		begin() // the known finding
		emitIf(readEvent(&gltf.Document{}, &gltf.Accessor{ComponentType: gltf.ComponentUshort, Type: gltf.AccessorVec2, Count: math.MaxInt}, r))
	case "C19":
		for i := share(tiers(80, 1500)); i > 0; i-- {
			readSession(r, "")
		}
		for i := 0; i < tiers(2, 20); i++ {
			for k, f := range readers() {
				if f.name != "ReadAccessor" && (i+k)%parts == part {
					readSession(r, f.name)
				}
			}
		}
	}
}

func badEvents(d *gltf.Document, a *gltf.Accessor, r *rand.Rand) {
	note(M{"d": accDoc(d), "a": accProj(a)})
	emitIf(readEvent(d, a, r))
	if a != nil {
		if l := typedFor(a.ComponentType, a.Type); len(l) > 0 {
			emitIf(typedEvent(d, a, l[r.Intn(len(l))], r))
		}
	} else {
		for _, f := range readers()[1:] {
			emitIf(typedEvent(d, a, f.name, r))
		}
	}
	if len(d.BufferViews) > 0 {
		emit(viewEvent(d, d.BufferViews[r.Intn(len(d.BufferViews))]))
	}
}

func badDoc(base string, r *rand.Rand) (*gltf.Document, *gltf.Accessor) {
	d := &gltf.Document{Buffers: []*gltf.Buffer{{}, {}}}
	put := func(b, align, n, stride int, data []byte) int {
		x := d.Buffers[b]
		x.Data = append(x.Data, make([]byte, (len(x.Data)+align)/align*align-len(x.Data))...)
		d.BufferViews = append(d.BufferViews, &gltf.BufferView{Buffer: b, ByteOffset: len(x.Data), ByteLength: n, ByteStride: stride})
		x.Data = append(x.Data, data[:n]...)
		x.Data = append(x.Data, 1, 2, 3)
		x.ByteLength = len(x.Data)
		return len(d.BufferViews) - 1
	}
	data := quiet(randBytes(r, 400))
	a := &gltf.Accessor{}
	set := func(c gltf.ComponentType, t gltf.AccessorType, n, off, stride int) {
		a.ComponentType, a.Type, a.Count, a.ByteOffset = c, t, n, off
		e := stride
		if e == 0 {
			e = gltf.SizeOfElement(c, t)
		}
		a.BufferView = gltf.Index(put(0, 4, off+(n-1)*e+gltf.SizeOfElement(c, t), stride, data))
	}
	sparse := func(ic gltf.ComponentType, idx []byte) {
		vn := gltf.SizeOfElement(a.ComponentType, a.Type) * 2
		is := gltf.SizeOfElement(ic, gltf.AccessorScalar)
		a.Sparse = &gltf.Sparse{Count: 2}
		a.Sparse.Indices = gltf.SparseIndices{ComponentType: ic, BufferView: put(1, 4, is*3, 0, append(make([]byte, is), idx...)), ByteOffset: is}
		a.Sparse.Values = gltf.SparseValues{BufferView: put(1, 4, vn+4, 0, data[100:]), ByteOffset: 4}
	}
	switch base {
	case "u1":
		set(gltf.ComponentUbyte, gltf.AccessorScalar, 5, 2, 0)
	case "u3":
		set(gltf.ComponentUbyte, gltf.AccessorVec3, 4, 4, 0)
	case "f3":
		set(gltf.ComponentFloat, gltf.AccessorVec3, 3, 4, 16)
	case "m2":
		set(gltf.ComponentUbyte, gltf.AccessorMat2, 2, 0, 0)
	case "sparse":
		set(gltf.ComponentUshort, gltf.AccessorVec2, 4, 4, 8)
		sparse(gltf.ComponentUbyte, []byte{1, 3})
	case "sparsefloat":
		set(gltf.ComponentFloat, gltf.AccessorVec4, 4, 0, 0)
		sparse(gltf.ComponentUint, []byte{1, 0, 0, 0, 2, 0, 0, 0})
	case "noview":
		a.ComponentType, a.Type, a.Count = gltf.ComponentUbyte, gltf.AccessorVec2, 4
		sparse(gltf.ComponentUshort, []byte{0, 0, 3, 0})
	}
	return d, a
}

func number(cur int, v string, lens map[string]int) int {
	switch v {
	case "max":
		return math.MaxInt
	case "min":
		return math.MinInt
	}
	if n, ok := lens[v]; ok {
		return n
	}
	n, err := strconv.Atoi(v[1:])
	check(err)
	switch v[0] {
	case '=':
		return n
	case '+':
		return cur + n
	case '-':
		return cur + n
	}
	panic(v)
}

// damageAccessor makes one change; changes of parts that are not there do nothing.
func damageAccessor(d *gltf.Document, pa **gltf.Accessor, f, v string) {
	a := *pa
	if a == nil {
		return
	}
	view := func(i int) *gltf.BufferView {
		if i < 0 || i >= len(d.BufferViews) {
			return nil
		}
		return d.BufferViews[i]
	}
	size := func(i int) map[string]int {
		x := view(i)
		if x == nil {
			return map[string]int{"size": 4, "past": 5}
		}
		return map[string]int{"size": x.ByteLength, "past": x.ByteLength + 1}
	}
	viewField := func(i int, f string) {
		x := view(i)
		if x == nil {
			return
		}
		y := *x
		switch f {
		case "nil":
			d.BufferViews[i] = nil
			return
		case "b":
			y.Buffer = number(y.Buffer, v, nil)
		case "off":
			y.ByteOffset = number(y.ByteOffset, v, nil)
		case "len":
			y.ByteLength = number(y.ByteLength, v, nil)
		case "stride":
			y.ByteStride = number(y.ByteStride, v, nil)
		}
		d.BufferViews[i] = &y
	}
	base := -1
	if a.BufferView != nil {
		base = *a.BufferView
	}
	s := a.Sparse
	if s == nil {
		s = new(gltf.Sparse)
		s.Indices.BufferView, s.Values.BufferView = -1, -1
	}
	switch f {
	case "nil":
		*pa = nil
	case "bv":
		a.BufferView = gltf.Index(number(base, v, nil))
	case "off":
		a.ByteOffset = number(a.ByteOffset, v, size(base))
	case "n":
		a.Count = number(a.Count, v, nil)
	case "c":
		a.ComponentType = 99
	case "t":
		a.Type = 99
	case "v.nil", "v.b", "v.off", "v.len", "v.stride":
		viewField(base, f[2:])
	case "b.nil", "b.cut":
		i := 0
		if x := view(base); x != nil {
			i = x.Buffer
		}
		if i < 0 || i >= len(d.Buffers) || d.Buffers[i] == nil {
			return
		}
		if f == "b.nil" {
			d.Buffers[i] = nil
			return
		}
		y := *d.Buffers[i]
		n := number(0, v, nil)
		if n > len(y.Data) {
			n = len(y.Data)
		}
		y.Data = y.Data[: len(y.Data)-n : len(y.Data)-n]
		d.Buffers[i] = &y
	case "sn":
		s.Count = number(s.Count, v, nil)
	case "ib":
		s.Indices.BufferView = number(s.Indices.BufferView, v, nil)
	case "ioff":
		s.Indices.ByteOffset = number(s.Indices.ByteOffset, v, size(s.Indices.BufferView))
	case "ic":
		s.Indices.ComponentType = 99
		if i := cindex(v); i >= 0 {
			s.Indices.ComponentType = ctypes[i].c
		}
	case "vb":
		s.Values.BufferView = number(s.Values.BufferView, v, nil)
	case "voff":
		s.Values.ByteOffset = number(s.Values.ByteOffset, v, size(s.Values.BufferView))
	case "iv.nil", "iv.len", "iv.stride":
		viewField(s.Indices.BufferView, f[3:])
	case "vv.len", "vv.stride":
		viewField(s.Values.BufferView, f[3:])
	case "index":
		x := view(s.Indices.BufferView)
		if x == nil || x.Buffer < 0 || x.Buffer >= len(d.Buffers) || d.Buffers[x.Buffer] == nil || s.Count <= 0 || s.Count > 1000 {
			return
		}
		is := gltf.SizeOfElement(s.Indices.ComponentType, gltf.AccessorScalar)
		data := d.Buffers[x.Buffer].Data
		o := x.ByteOffset + s.Indices.ByteOffset + (s.Count-1)*is
		if is == 0 || o < 0 || o+is > len(data) {
			return
		}
		n := math.MaxUint32
		switch v {
		case "=n":
			n = a.Count
		case "=n-1":
			n = a.Count - 1
		case "max":
			n = math.MaxInt32
		}
		for i := 0; i < is; i++ {
			data[o+i] = byte(n >> (8 * i))
		}
	default:
		panic(f)
	}
}

func randDamage(d *gltf.Document, a **gltf.Accessor, r *rand.Rand) {
	num := func() string {
		return pick(r, "max", "min", "=-1", "=0", "=1", "=2", "=3", "+1", "+2", "+4", "+8", "--1", "--2", "--4", "=1000000000", "=255", "=256", "=65536", "=4294967296",
			fmt.Sprintf("=%d", math.MaxInt-r.Intn(200)), fmt.Sprintf("=%d", math.MaxInt32+r.Intn(3)), fmt.Sprintf("=%d", math.MaxInt/(1+r.Intn(64))), "size", "past")
	}
	f := pick(r, "bv", "off", "n", "v.b", "v.off", "v.len", "v.stride", "sn", "ib", "ioff", "vb", "voff", "iv.len", "iv.stride", "vv.len", "vv.stride", "b.cut", "index", "c", "t", "nil", "v.nil", "b.nil", "iv.nil", "ic", "v.off", "v.len", "off", "n")
	v := num()
	switch f {
	case "nil":
		if r.Intn(5) > 0 {
			return
		}
	case "ic":
		v = pick(r, "byte", "short", "float", "bad", "ushort", "uint", "ubyte")
	case "index":
		v = pick(r, "=n", "=n-1", "max", "=-1")
	case "b.cut":
		v = fmt.Sprintf("=%d", r.Intn(30))
	case "off", "ioff", "voff":
	default:
		if v == "size" || v == "past" {
			v = "+1"
		}
	}
	damageAccessor(d, a, f, v)
}

// ---------------------------------------------------------------- histories of reads

type readResult struct {
	id   int
	v    reflect.Value
	mem  reflect.Value // the memory that was handed in, if the caller made it
	used bool          // its memory was handed in again
}

type readJob struct {
	k int
	f reader
	a *gltf.Accessor
}

// readSession is a history of reads; with a name, of large accessors by that reader.
func readSession(r *rand.Rand, name string) {
	begin()
	b := &accBuilder{d: new(gltf.Document), r: r}
	var jobs []readJob
	large := name != "" || r.Intn(8) == 0
	for i := 2 + r.Intn(5); i > 0; i-- {
		s, base := randAccScn(r, pick(r, 4, 12, 12, 130))
		if large && r.Intn(2) == 0 {
			s.N = largeSize(s.C, s.T, r) / pick(r, 1, 1, 8)
			if s.IC != "none" && r.Intn(2) == 0 {
				s.SN = 1 + r.Intn(s.N)
			}
			base = true
		}
		if name != "" {
			s, _ = randAccScn(r, 4)
			for fits := false; !fits; {
				s.C, s.T = randType(r)
				for _, n := range typedFor(ctypes[cindex(s.C)].c, ttypes[tindex(s.T)].t) {
					fits = fits || n == name
				}
			}
			switch name {
			case "ReadNormal", "ReadPosition", "ReadTangent", "ReadInverseBindMatrices":
				s.C = "float"
			default:
				s.C = pick(r, "ubyte", "ushort", pick(r, "float", "uint"))
			}
			s.N, base = pick(r, 1001, 1400, 3000, 5500)+r.Intn(20), true
		} else if r.Intn(3) == 0 { // types the typed readers take
			s.C, s.T = pick(r, "ubyte", "ushort", "float", "uint"), pick(r, "SCALAR", "VEC2", "VEC3", "VEC4", "MAT4")
		}
		a := b.accessor(s, base)
		if r.Intn(6) == 0 && name == "" {
			randDamage(b.d, &a, r)
		}
		if noHang(a) || a != nil && a.BufferView == nil && a.Count == math.MaxInt {
			a.Count = 3
		}
		b.d.Accessors = append(b.d.Accessors, a)
		fs := []string{"ReadAccessor"}
		if a != nil {
			fs = append(fs, typedFor(a.ComponentType, a.Type)...)
		}
		if name != "" {
			fs = []string{name}
		} else if r.Intn(4) == 0 {
			fs = append(fs, readers()[r.Intn(11)].name)
		}
		for _, n := range fs {
			jobs = append(jobs, readJob{f: readerNamed(n), a: a})
		}
	}
	for _, x := range b.d.Buffers { // spare capacity, to see whether anything is written there
		if x != nil {
			full := append(append([]byte(nil), x.Data...), randBytes(r, 16)...)
			x.Data = full[:len(x.Data)]
		}
	}
	spare := func() string {
		var all []any
		for _, x := range b.d.Buffers {
			if x != nil {
				all = append(all, append([]byte(nil), x.Data[:cap(x.Data)]...))
			}
		}
		return digest([]any{b.d, all})
	}
	before := spare()
	if large {
		emit(M{"op": "start"})
	} else {
		emit(M{"op": "start", "d": accDoc(b.d)})
	}
	for i := range jobs {
		jobs[i].k = i + 1
		runtime.GC() // empties the pools
		runtime.GC()
		res, o, _ := jobs[i].f.call(b.d, jobs[i].a, reflect.Value{})
		emit(with(M{"op": "ref", "fn": jobs[i].f.name, "a": accProj(jobs[i].a)}, resultOf(res, o)))
	}
	id := 0
	again := func(j readJob, res reflect.Value, o, how string) int {
		id++
		emit(with(M{"op": "again", "k": j.k, "id": id, "how": how}, resultOf(res, o)))
		return id
	}
	var results []*readResult
	n := r.Intn(tiers(14, 40))
	if name != "" && n < 12 {
		n = 12
	}
	for i := n; i > 0; i-- {
		j := jobs[r.Intn(len(jobs))]
		buf, how := reflect.Value{}, "none"
		if name == "" || r.Intn(3) == 0 {
			buf, how = handIn(j, &results, r)
		}
		res, o, _ := j.f.call(b.d, j.a, buf)
		x := &readResult{id: again(j, res, o, how), v: res, mem: buf}
		if o == "ok" {
			results = append(results, x)
		}
	}
	if r.Intn(2) == 0 { // many at once
		type rec struct {
			j   readJob
			res reflect.Value
			o   string
			how string
			m   M
			use bool
		}
		g := 2 + r.Intn(5)
		all := make([][]rec, g)
		var wg sync.WaitGroup
		for k := 0; k < g; k++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func(k int) {
				defer wg.Done()
				var own []*readResult
				for i := 0; i < tiers(6, 20); i++ {
					j := jobs[rr.Intn(len(jobs))]
					buf, how := handIn(j, &own, rr)
					res, o, _ := j.f.call(b.d, j.a, buf)
					x := &readResult{id: len(all[k]), v: res, mem: buf}
					if o == "ok" {
						own = append(own, x)
					}
					all[k] = append(all[k], rec{j: j, res: res, o: o, how: how, m: resultOf(res, o)})
				}
				for _, x := range own {
					all[k][x.id].use = !x.used
				}
			}(k)
		}
		wg.Wait()
		for _, l := range all {
			for _, x := range l {
				id++
				emit(with(M{"op": "again", "k": x.j.k, "id": id, "how": "concurrent " + x.how}, x.m))
				if x.use {
					results = append(results, &readResult{id: id, v: x.res})
				}
			}
		}
	}
	if !large && r.Intn(3) == 0 { // a storm of reads with nothing in between, of which the different results are recorded
		type res struct {
			k int
			m M
		}
		all := make([][]res, 8)
		var wg sync.WaitGroup
		for g := range all {
			wg.Add(1)
			g, rr := g, rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				last, seen := map[int]reflect.Value{}, map[string]bool{}
				for i := 0; i < tiers(150, 500); i++ {
					j := jobs[rr.Intn(len(jobs))]
					v, o, _ := j.f.call(b.d, j.a, reflect.Value{})
					if p, ok := last[j.k]; ok && o == "ok" && reflect.DeepEqual(p.Interface(), v.Interface()) {
						continue
					}
					if o == "ok" {
						last[j.k] = v
					}
					m := resultOf(v, o)
					if d := fmt.Sprint(j.k, digest(m)); !seen[d] && len(seen) < 60 {
						seen[d] = true
						all[g] = append(all[g], res{j.k, m})
					}
				}
			}()
		}
		wg.Wait()
		for _, l := range all {
			for _, x := range l {
				id++
				emit(with(M{"op": "again", "k": x.k, "id": id, "how": "storm"}, x.m))
			}
		}
	}
	for _, x := range results {
		if !x.used {
			emit(M{"op": "still", "id": x.id, "flat": resultOf(x.v, "ok")["flat"]})
		}
	}
	emit(M{"op": "doc", "same": spare() == before})
}

// handIn chooses the memory for a read: none, dirty memory, or that of an earlier result.
func handIn(j readJob, results *[]*readResult, r *rand.Rand) (reflect.Value, string) {
	t := j.f.f.Type().In(2)
	if r.Intn(3) == 0 {
		for _, i := range r.Perm(len(*results)) {
			x := (*results)[i]
			if x.used || !x.v.IsValid() || x.v.Kind() != reflect.Slice || x.v.Cap() == 0 {
				continue
			}
			if j.f.name == "ReadAccessor" {
				x.used = true
				full := x.v
				if r.Intn(2) == 0 {
					full = x.v.Slice(0, x.v.Cap())
				}
				n := full.Len() * int(full.Type().Elem().Size())
				if n == 0 {
					return reflect.Value{}, "none"
				}
				return reflect.ValueOf(unsafe.Slice((*byte)(full.UnsafePointer()), n)), "earlier result"
			}
			if x.v.Type() == t {
				x.used = true
				return x.v, "earlier result"
			}
		}
	}
	v := randScratch(j.f, j.a, r)
	if !v.IsValid() {
		return v, "none"
	}
	return v, fmt.Sprintf("dirty %d/%d", v.Len(), v.Cap())
}
