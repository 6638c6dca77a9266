package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"image/color"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"unsafe"

	"github.com/qmuntal/gltf"
	gbin "github.com/qmuntal/gltf/binary"
)

func init() { drivers["layout"] = layout }

// The format's names, as the specification uses them, and the library's constants.
var ctypes = []struct {
	name string
	c    gltf.ComponentType
	t    reflect.Type
	obj  any
}{
	{"byte", gltf.ComponentByte, reflect.TypeOf(int8(0)), gbin.Byte},
	{"ubyte", gltf.ComponentUbyte, reflect.TypeOf(uint8(0)), gbin.Ubyte},
	{"short", gltf.ComponentShort, reflect.TypeOf(int16(0)), gbin.Short},
	{"ushort", gltf.ComponentUshort, reflect.TypeOf(uint16(0)), gbin.Ushort},
	{"uint", gltf.ComponentUint, reflect.TypeOf(uint32(0)), gbin.Uint},
	{"float", gltf.ComponentFloat, reflect.TypeOf(float32(0)), gbin.Float},
}

var ttypes = []struct {
	name, method string
	t            gltf.AccessorType
	rows, cols   int
}{
	{"SCALAR", "Scalar", gltf.AccessorScalar, 1, 1},
	{"VEC2", "Vec2", gltf.AccessorVec2, 2, 1},
	{"VEC3", "Vec3", gltf.AccessorVec3, 3, 1},
	{"VEC4", "Vec4", gltf.AccessorVec4, 4, 1},
	{"MAT2", "Mat2", gltf.AccessorMat2, 2, 2},
	{"MAT3", "Mat3", gltf.AccessorMat3, 3, 3},
	{"MAT4", "Mat4", gltf.AccessorMat4, 4, 4},
}

func cindex(name string) int {
	for i, c := range ctypes {
		if c.name == name {
			return i
		}
	}
	return -1
}

func tindex(name string) int {
	for i, t := range ttypes {
		if t.name == name {
			return i
		}
	}
	return -1
}

func cname(c gltf.ComponentType) string {
	for _, x := range ctypes {
		if x.c == c {
			return x.name
		}
	}
	return fmt.Sprintf("?%d", c)
}

func tname(t gltf.AccessorType) string {
	for _, x := range ttypes {
		if x.t == t {
			return x.name
		}
	}
	return fmt.Sprintf("?%d", t)
}

// elemType is the Go type of an element.
func elemType(c, t string) reflect.Type {
	if t == "COLOR" {
		if c == "ubyte" {
			return reflect.TypeOf(color.RGBA{})
		}
		return reflect.TypeOf(color.RGBA64{})
	}
	ct, tt := ctypes[cindex(c)].t, ttypes[tindex(t)]
	switch {
	case tt.cols > 1:
		return reflect.ArrayOf(tt.rows, reflect.ArrayOf(tt.cols, ct))
	case tt.rows > 1:
		return reflect.ArrayOf(tt.rows, ct)
	}
	return ct
}

// leaves visits the components of a value in Go order.
func leaves(v reflect.Value, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), f)
		}
	default:
		f(v)
	}
}

// compBytes is the little-endian representation of a component.
func compBytes(v reflect.Value) []int {
	var b [4]byte
	switch v.Kind() {
	case reflect.Int8:
		return []int{int(uint8(v.Int()))}
	case reflect.Uint8:
		return []int{int(v.Uint())}
	case reflect.Int16:
		binary.LittleEndian.PutUint16(b[:], uint16(v.Int()))
		return ints(b[:2])
	case reflect.Uint16:
		binary.LittleEndian.PutUint16(b[:], uint16(v.Uint()))
		return ints(b[:2])
	case reflect.Uint32:
		binary.LittleEndian.PutUint32(b[:], uint32(v.Uint()))
		return ints(b[:])
	case reflect.Float32:
		binary.LittleEndian.PutUint32(b[:], math.Float32bits(v.Interface().(float32)))
		return ints(b[:])
	}
	panic("component " + v.Kind().String())
}

func setComp(v reflect.Value, x uint32) {
	switch v.Kind() {
	case reflect.Int8:
		v.SetInt(int64(int8(x)))
	case reflect.Uint8:
		v.SetUint(uint64(uint8(x)))
	case reflect.Int16:
		v.SetInt(int64(int16(x)))
	case reflect.Uint16:
		v.SetUint(uint64(uint16(x)))
	case reflect.Uint32:
		v.SetUint(uint64(x))
	case reflect.Float32:
		f := math.Float32frombits(x)
		if f != f { // no payloads: copying a signalling NaN may change it
			f = math.Float32frombits(0x7fc00000)
		}
		v.Set(reflect.ValueOf(f))
	default:
		panic("component " + v.Kind().String())
	}
}

var corners = []uint32{0, 1, 0xff, 0x80, 0x7f, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff,
	0x3f800000, 0xbf800000, 0x7f7fffff, 0x00000001, 0x7f800000, 0xff800000, 0x01020304}

func randComp(r *rand.Rand) uint32 {
	if r.Intn(4) == 0 {
		return corners[r.Intn(len(corners))]
	}
	return r.Uint32()
}

// vals lists the components of all the elements of a slice.
func vals(v reflect.Value) [][]int {
	l := [][]int{}
	leaves(v, func(x reflect.Value) { l = append(l, compBytes(x)) })
	return l
}

func fill(v reflect.Value, r *rand.Rand) {
	leaves(v, func(x reflect.Value) { setComp(x, randComp(r)) })
}

// newSlice makes n random elements followed by two spare ones beyond the capacity.
func newSlice(c, t string, n int, r *rand.Rand) (s, whole reflect.Value) {
	st := reflect.SliceOf(elemType(c, t))
	whole = reflect.MakeSlice(st, n+2, n+2)
	fill(whole, r)
	return whole.Slice3(0, n, n), whole
}

// arena is a byte slice inside a larger one whose surroundings are watched.
type arena struct {
	all, before []byte
	off, cap    int
}

const (
	margin = 16
	wide   = 8192
)

func newArena(length, capacity int, r *rand.Rand) (*arena, []byte) {
	return newArenaWith(length, capacity, margin*8, r)
}

func newArenaWith(length, capacity, behind int, r *rand.Rand) (*arena, []byte) {
	a := &arena{off: margin, cap: capacity}
	a.all = make([]byte, margin+capacity+behind)
	r.Read(a.all)
	a.before = append([]byte(nil), a.all...)
	return a, a.all[margin : margin+length : margin+capacity]
}

// outside lists the changed positions outside the slice's capacity.
func (a *arena) outside() []int {
	l := []int{}
	for i := range a.all {
		if (i < a.off || i >= a.off+a.cap) && a.all[i] != a.before[i] && len(l) < 50 {
			l = append(l, i-a.off)
		}
	}
	return l
}

// changed lists all changed positions.
func (a *arena) changed() []int {
	l := []int{}
	for i := range a.all {
		if a.all[i] != a.before[i] {
			l = append(l, i-a.off)
		}
	}
	return l
}

func same(b bool) string {
	if b {
		return "same"
	}
	return "changed"
}

func eqVals(a, b [][]int) bool {
	return reflect.DeepEqual(a, b)
}

type layoutScn struct {
	Op, C, T                 string
	N, Stride, Len, Cap, Off int
}

func layout(r *rand.Rand) {
	want := map[string]map[string]bool{
		"C11": {"read": true, "write": true, "get": true, "put": true},
		"C12": {"read": true, "write": true},
		"C13": {"make": true, "makebuf": true},
	}[scope]
	scenarios(func(line []byte) {
		var s layoutScn
		check(json.Unmarshal(line, &s))
		if !want[s.Op] {
			return
		}
		layoutOne(s, r)
	})
	n := 300
	if thorough {
		n = 20000
	}
	switch scope {
	case "C11", "C12":
		for i := 0; i < n; i++ {
			layoutRandom(r)
		}
		if scope == "C12" {
			layoutHuge(r)
		}
		for i := 0; i < n/2; i++ {
			layoutRound(r)
		}
		layoutBulk(r)
	case "C13":
		for i := 0; i < n*2; i++ {
			s := layoutScn{Op: "makebuf", C: ctypes[r.Intn(6)].name, T: ttypes[r.Intn(7)].name, N: r.Intn(70), Len: r.Intn(700)}
			s.Cap = s.Len + r.Intn(80)
			layoutOne(s, r)
		}
		for i := 0; i < n/5; i++ {
			s := layoutScn{Op: "makebuf", C: ctypes[r.Intn(6)].name, T: ttypes[r.Intn(7)].name, N: bulkSizes[r.Intn(len(bulkSizes))]}
			s.Len = s.N*int(elemType(s.C, s.T).Size()) + r.Intn(200) - 100
			if r.Intn(3) == 0 || s.Len < 0 {
				s.Len = r.Intn(70000)
			}
			s.Cap = s.Len + r.Intn(80)
			layoutOne(s, r)
		}
		layoutInvalid(r)
		for _, c := range ctypes {
			for _, t := range ttypes {
				for _, k := range []int{0, 1, 2, 7, 300} {
					layoutIdent(c.name, t.name, k, r)
				}
			}
		}
		for _, k := range []int{0, 1, 5} {
			layoutIdent("ubyte", "COLOR", k, r)
			layoutIdent("ushort", "COLOR", k, r)
		}
	}
}

func esize(c, t string) int {
	if t == "COLOR" {
		t = "VEC4"
	}
	cs := int(ctypes[cindex(c)].t.Size())
	tt := ttypes[tindex(t)]
	if t == "SCALAR" {
		return cs
	}
	return tt.cols * ((tt.rows*cs + 3) / 4 * 4)
}

func layoutRandom(r *rand.Rand) {
	c, t := ctypes[r.Intn(6)].name, ttypes[r.Intn(7)].name
	cs, es := int(ctypes[cindex(c)].t.Size()), esize(c, t)
	s := layoutScn{C: c, T: t, N: r.Intn(9)}
	if r.Intn(10) == 0 {
		s.N = 20 + r.Intn(60)
	}
	s.Op = []string{"read", "write"}[r.Intn(2)]
	e := es
	if r.Intn(3) > 0 {
		s.Stride = es + cs*r.Intn(12)
		if r.Intn(4) == 0 {
			s.Stride = 1 + r.Intn(2*es)
		}
		e = s.Stride
	}
	s.Len = e*(s.N-1) + es + []int{0, -1, 1, e - es, -es, 3, r.Intn(50), -r.Intn(e + 1)}[r.Intn(8)]
	if s.Len < 0 {
		s.Len = 0
	}
	layoutOne(s, r)
}

// layoutHuge tries strides whose extent is beyond any memory, or overflows.
func layoutHuge(r *rand.Rand) {
	for _, c := range ctypes {
		for _, t := range ttypes {
			for _, n := range []int{0, 1, 2, 3, 5} {
				for _, st := range []int{math.MaxInt, math.MaxInt/2 + 1, 1 << 62, 1 << 61, 1 << 32, math.MinInt, -4, math.MaxInt - 63} {
					for _, op := range []string{"read", "write"} {
						layoutOne(layoutScn{Op: op, C: c.name, T: t.name, N: n, Stride: st, Len: 64}, r)
					}
				}
			}
		}
	}
}

func layoutOne(s layoutScn, r *rand.Rand) {
	begin()
	m := M{"op": s.Op, "c": s.C, "t": s.T, "n": s.N, "stride": sat(s.Stride), "len": s.Len}
	switch s.Op {
	case "write":
		a, b := newArena(s.Len, s.Len, r)
		sl, whole := newSlice(s.C, s.T, s.N, r)
		before := vals(whole)
		m["vals"], m["before"] = vals(sl), ints(b)
		o, err := try(func() error { return gbin.Write(b, s.Stride, sl.Interface()) })
		m["out"], m["err"], m["after"], m["outside"] = o, errText(err), ints(b), a.outside()
		m["src"] = same(eqVals(before, vals(whole)))
	case "read":
		a, b := newArena(s.Len, s.Len, r)
		sl, whole := newSlice(s.C, s.T, s.N, r)
		if s.C == "float" { // no NaN payloads
			for i := 3; i < len(b); i++ {
				if b[i]&0x7f == 0x7f {
					b[i] &= 0xbf
				}
			}
			copy(a.before, a.all)
		}
		m["bytes"], m["before"] = ints(b), vals(sl)
		rest := vals(whole)[len(vals(sl)):]
		o, err := try(func() error { return gbin.Read(b, s.Stride, sl.Interface()) })
		m["out"], m["err"], m["after"], m["outside"] = o, errText(err), vals(sl), a.changed()
		m["beyond"] = same(eqVals(rest, vals(whole)[len(vals(sl)):]))
	case "put":
		a, b := newArena(s.Len, s.Len, r)
		sl, _ := newSlice(s.C, s.T, 1, r)
		m["vals"], m["before"] = vals(sl), ints(b)
		f := reflect.ValueOf(ctypes[cindex(s.C)].obj).MethodByName("Put" + ttypes[tindex(s.T)].method)
		o, err := try(func() error { f.Call([]reflect.Value{reflect.ValueOf(b), sl.Index(0)}); return nil })
		m["out"], m["err"], m["after"], m["outside"] = o, errText(err), ints(b), a.outside()
	case "get":
		_, b := newArena(s.Len, s.Len, r)
		for i := range b {
			if b[i]&0x7f == 0x7f {
				b[i] &= 0xbf
			}
		}
		m["bytes"] = ints(b)
		f := reflect.ValueOf(ctypes[cindex(s.C)].obj).MethodByName(ttypes[tindex(s.T)].method)
		var v []reflect.Value
		o, err := try(func() error { v = f.Call([]reflect.Value{reflect.ValueOf(b)}); return nil })
		m["out"], m["err"] = o, errText(err)
		if o == "ok" {
			m["after"] = vals(v[0])
		}
	case "make", "makebuf":
		c, t := ctypes[cindex(s.C)].c, ttypes[tindex(s.T)].t
		layoutMake(m, s, c, t, r)
	}
	emit(m)
}

// nobody is where the runtime places what has no size.
var nobody = new(struct{})

func layoutMake(m M, s layoutScn, c gltf.ComponentType, t gltf.AccessorType, r *rand.Rand) {
	var a *arena
	var b []byte
	m["buflen"], m["bufcap"] = s.Len, s.Cap
	if s.Op == "makebuf" && s.Cap >= 0 {
		a, b = newArenaWith(s.Len, s.Cap, wide, r)
	}
	var v any
	o, err := try(func() (err error) {
		if s.Op == "make" {
			v, err = gbin.MakeSlice(c, t, s.N)
		} else {
			v, err = gbin.MakeSliceBuffer(c, t, s.N, b)
		}
		return
	})
	m["out"], m["err"] = o, errText(err)
	m["outside"] = []int{}
	if o != "ok" {
		return
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Slice {
		m["gotype"], m["len"], m["tc"], m["tt"], m["tn"] = fmt.Sprintf("%T", v), -1, "", "", -1
		return
	}
	m["gotype"], m["len"] = ascii(fmt.Sprintf("%T", v)), rv.Len()
	o2, err2 := try(func() error {
		tc, tt, tn := gbin.Type(v)
		m["tc"], m["tt"], m["tn"] = cname(tc), tname(tt), tn
		return nil
	})
	if o2 != "ok" {
		m["tc"], m["tt"], m["tn"], m["err"] = o2, errText(err2), -1, errText(err2)
	}
	// memory that is nobody's, or reaches beyond the arena, is not touched
	if size := uintptr(rv.Cap()) * rv.Type().Elem().Size(); size > 0 {
		p := rv.Pointer()
		if p == uintptr(unsafe.Pointer(nobody)) {
			m["outside"] = []int{0}
			return
		}
		if a != nil {
			if lo := uintptr(unsafe.Pointer(&a.all[0])); p >= lo && p < lo+uintptr(len(a.all)) && p+size > lo+uintptr(len(a.all)) {
				m["outside"] = []int{a.cap}
				return
			}
		}
	}
	// use all the memory the slice gives access to
	n := wide / int(rv.Type().Elem().Size())
	if n < rv.Len() {
		n = rv.Len()
	}
	if n > rv.Cap() {
		n = rv.Cap()
	}
	full := rv.Slice(0, n)
	leaves(full, func(x reflect.Value) { setComp(x, 0xa5a5a5a5) })
	if a != nil {
		m["outside"] = a.outside()
	}
}

// layoutInvalid passes type codes the format does not have.
func layoutInvalid(r *rand.Rand) {
	for _, op := range []string{"make", "makebuf"} {
		for c := 0; c < 12; c++ {
			for t := 0; t < 12; t++ {
				cn, tn := cname(gltf.ComponentType(c)), tname(gltf.AccessorType(t))
				if cn[0] != '?' && tn[0] != '?' {
					continue
				}
				for _, n := range []int{0, 1, 3} {
					for _, l := range []int{0, 64} {
						begin()
						s := layoutScn{Op: op, C: cn, T: tn, N: n, Len: l, Cap: l}
						m := M{"op": op, "c": cn, "t": tn, "n": n, "stride": 0, "len": l}
						layoutMake(m, s, gltf.ComponentType(c), gltf.AccessorType(t), r)
						emit(m)
					}
				}
			}
		}
	}
}

// layoutIdent asks for the type of a slice made by hand.
func layoutIdent(c, t string, n int, r *rand.Rand) {
	begin()
	v := reflect.MakeSlice(reflect.SliceOf(elemType(c, t)), n, n).Interface()
	m := M{"op": "ident", "c": c, "t": t, "n": n, "tc": "", "tt": "", "tn": -1}
	o, err := try(func() error {
		tc, tt, tn := gbin.Type(v)
		m["tc"], m["tt"], m["tn"] = cname(tc), tname(tt), tn
		return nil
	})
	m["out"], m["err"] = o, errText(err)
	emit(m)
}

// layoutRound writes a slice and reads it back.
func layoutRound(r *rand.Rand) {
	begin()
	c, t := ctypes[r.Intn(6)].name, ttypes[r.Intn(7)].name
	if r.Intn(12) == 0 {
		c, t = []string{"ubyte", "ushort"}[r.Intn(2)], "COLOR"
	}
	cs, es := int(ctypes[cindex(c)].t.Size()), esize(c, t)
	n, stride := r.Intn(12), 0
	if r.Intn(3) > 0 {
		stride = es + cs*r.Intn(9)
	}
	e := es
	if stride > 0 {
		e = stride
	}
	b := make([]byte, n*e)
	r.Read(b)
	sl, _ := newSlice(c, t, n, r)
	back, _ := newSlice(c, t, n, r)
	m := M{"op": "round", "c": c, "t": t, "n": n, "stride": stride, "vals": vals(sl)}
	o, err := try(func() error {
		if err := gbin.Write(b, stride, sl.Interface()); err != nil {
			return err
		}
		return gbin.Read(b, stride, back.Interface())
	})
	m["out"], m["err"], m["after"] = o, errText(err), vals(back)
	emit(m)
}

var bulkSizes = []int{63, 64, 65, 127, 128, 130, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 1026, 1027, 2049, 4095, 4096, 4097, 5003, 65535, 65536, 65537, 100001}

// memory is the memory of a slice.
func memory(v reflect.Value) []byte {
	if v.Len() == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(v.UnsafePointer()), v.Len()*int(v.Type().Elem().Size()))
}

// tame makes no NaN of any four bytes.
func tame(b []byte) {
	for i := range b {
		if b[i]&0x7f == 0x7f {
			b[i] &= 0xbf
		}
	}
}

// equalBut compares bytes except those between the columns of elements.
func equalBut(a, b []byte, c, t string, e int) bool {
	tt := ttypes[tindex(strings.Replace(t, "COLOR", "VEC4", 1))]
	col, size := tt.rows*int(ctypes[cindex(c)].t.Size()), esize(c, t)
	for i := range a {
		if p := i % e; a[i] != b[i] && (p >= size || p%(size/tt.cols) < col) {
			return false
		}
	}
	return len(a) == len(b)
}

// spared says whether what is not part of any component is as it was.
func spared(a, b []byte, c, t string, e int) bool {
	tt := ttypes[tindex(strings.Replace(t, "COLOR", "VEC4", 1))]
	col, size := tt.rows*int(ctypes[cindex(c)].t.Size()), esize(c, t)
	for i := range a {
		if p := i % e; a[i] != b[i] && (p >= size || p%(size/tt.cols) >= col) {
			return false
		}
	}
	return len(a) == len(b)
}

// layoutBulk compares long slices with the same transfer in small pieces.
func layoutBulk(r *rand.Rand) {
	type ty struct{ c, t string }
	l := []ty{{"ubyte", "COLOR"}, {"ushort", "COLOR"}}
	for _, c := range ctypes {
		for _, t := range ttypes {
			l = append(l, ty{c.name, t.name})
		}
	}
	for _, x := range l {
		for _, n := range bulkSizes {
			if n > 60000 && !thorough && r.Intn(8) > 0 {
				continue
			}
			for _, dir := range []string{"read", "write"} {
				for _, spread := range []bool{false, true} {
					layoutBulkOne(x.c, x.t, n, dir, spread, r)
				}
			}
		}
	}
}

func layoutBulkOne(c, t string, n int, dir string, spread bool, r *rand.Rand) {
	begin()
	cs, es := int(ctypes[cindex(c)].t.Size()), esize(c, t)
	stride, e := 0, es
	if spread {
		stride = es + cs*r.Intn(6)
		e = stride
	}
	st := reflect.SliceOf(elemType(c, t))
	mk := func(fresh bool) reflect.Value {
		v := reflect.MakeSlice(st, n, n)
		if fresh {
			r.Read(memory(v))
			tame(memory(v))
		}
		return v
	}
	transfer := func(b []byte, v reflect.Value, from, to int) error {
		if dir == "read" {
			return gbin.Read(b[from*e:], stride, v.Slice3(from, to, to).Interface())
		}
		return gbin.Write(b[from*e:], stride, v.Slice3(from, to, to).Interface())
	}
	end := n * e
	b1 := randBytes(r, end+pick(r, 0, 0, 1, 2, 3, 7, 65))
	tame(b1)
	b0, b2 := append([]byte{}, b1...), append([]byte{}, b1...)
	v1 := mk(dir == "write")
	v2 := mk(false)
	if dir == "write" {
		copy(memory(v2), memory(v1))
	}
	m := M{"op": "bulk", "dir": dir, "c": c, "t": t, "n": n, "stride": stride}
	o, err := try(func() error { return transfer(b1, v1, 0, n) })
	m["out"], m["err"] = o, errText(err)
	m["pieces"], _ = try(func() error {
		for i := 0; i < n; {
			k := i + 1 + r.Intn(8)
			if k > n {
				k = n
			}
			if err := transfer(b2, v2, i, k); err != nil {
				return err
			}
			i = k
		}
		return nil
	})
	m["same"] = equalBut(b1[:end], b2[:end], c, t, e) && bytes.Equal(memory(v1), memory(v2)) && spared(b0[:end], b1[:end], c, t, e) &&
		bytes.Equal(b0[end:], b1[end:])
	// too few bytes
	tt := tindex(strings.Replace(t, "COLOR", "VEC4", 1))
	b3, v3 := append([]byte{}, b1...), mk(false)
	b3 = b3[:(n-1)*e+cs*ttypes[tt].rows*ttypes[tt].cols-1]
	m["short"], _ = try(func() error { return transfer(b3, v3, 0, n) })
	m["untouched"] = bytes.Equal(b3, b1[:len(b3)]) && bytes.Count(memory(v3), []byte{0}) == len(memory(v3))
	emit(m)
}
