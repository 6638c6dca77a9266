package main

import (
	"math/rand"
	"reflect"
	"sort"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

// formula fills memory: the specification knows every byte of it.
type formula struct{ k0, k1, k2, k3 int }

func (m formula) fill(b []byte) {
	for k := range b {
		x := byte(m.k0 + k*m.k1 + k/256*m.k2 + k/65536*m.k3)
		if x%128 == 127 {
			x -= 64
		}
		b[k] = x
	}
}

// samples are some of n elements, among them those next to powers of two.
func samples(n, extra int, r *rand.Rand) []int {
	use := map[int]bool{0: true, n - 1: true}
	for p := 1; p <= n; p *= 2 {
		for k := -1; k <= 1; k++ {
			use[p+k] = true
		}
		use[n-p] = true
	}
	for i := 0; i < extra; i++ {
		use[r.Intn(n)] = true
	}
	l := []int{}
	for i := range use {
		if i >= 0 && i < n {
			l = append(l, i)
		}
	}
	sort.Ints(l)
	return l
}

var readSizes = []int{500, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70001, 131071, 131073, 200003}

// largeDoc makes an accessor of n elements.
func largeDoc(c, t string, n int, r *rand.Rand) (*gltf.Document, *gltf.Accessor, M) {
	m := formula{r.Intn(256), 1 + 2*r.Intn(128), r.Intn(256), r.Intn(256)}
	cs := int(ctypes[cindex(c)].t.Size())
	d := &gltf.Document{Buffers: []*gltf.Buffer{{}}}
	size := 0
	part := func(n int) (*gltf.BufferView, int) {
		stride := 0
		if r.Intn(3) == 0 {
			stride = esize(c, t) + cs*r.Intn(4)
		}
		e := stride
		if e == 0 {
			e = esize(c, t)
		}
		off := cs * r.Intn(4)
		v := &gltf.BufferView{ByteOffset: size + cs*r.Intn(5), ByteStride: stride}
		v.ByteLength = off + n*e
		v.ByteOffset = (v.ByteOffset + cs - 1) / cs * cs
		size = v.ByteOffset + v.ByteLength
		d.BufferViews = append(d.BufferViews, v)
		return v, off
	}
	a := &gltf.Accessor{ComponentType: ctypes[cindex(c)].c, Type: ttypes[tindex(t)].t, Count: n}
	e := M{"start": 0, "step": 1, "v": viewProj(new(gltf.BufferView)), "vv": viewProj(new(gltf.BufferView)), "m": M{"k0": m.k0, "k1": m.k1, "k2": m.k2, "k3": m.k3}}
	if r.Intn(6) > 0 {
		v, off := part(n)
		a.BufferView, a.ByteOffset = gltf.Index(len(d.BufferViews)-1), off
		e["v"] = viewProj(v)
	}
	if r.Intn(2) == 0 || a.BufferView == nil {
		step := pick(r, 1, 1, 2, 3, 7, 64, 255, 256, 1000)
		start := r.Intn(pick(r, 1, 10, n))
		sn := (n - start + step - 1) / step
		if r.Intn(3) == 0 {
			sn = 1 + r.Intn(sn)
		}
		is := 4
		ic := gltf.ComponentUint
		if n <= 65536 && r.Intn(2) == 0 {
			ic, is = gltf.ComponentUshort, 2
		}
		idx := make([]byte, sn*is)
		for j := 0; j < sn; j++ {
			x := start + j*step
			for k := 0; k < is; k++ {
				idx[j*is+k] = byte(x >> (8 * k))
			}
		}
		v, off := part(sn)
		d.Buffers = append(d.Buffers, &gltf.Buffer{ByteLength: len(idx), Data: idx})
		d.BufferViews = append(d.BufferViews, &gltf.BufferView{Buffer: 1, ByteLength: len(idx)})
		a.Sparse = &gltf.Sparse{Count: sn, Indices: gltf.SparseIndices{BufferView: len(d.BufferViews) - 1, ComponentType: ic},
			Values: gltf.SparseValues{BufferView: len(d.BufferViews) - 2, ByteOffset: off}}
		e["vv"], e["start"], e["step"] = viewProj(v), start, step
	}
	data := make([]byte, size)
	m.fill(data)
	d.Buffers[0].Data, d.Buffers[0].ByteLength = data, size
	e["a"] = accProj(a)
	return d, a, e
}

func largeSize(c, t string, r *rand.Rand) int {
	n := readSizes[r.Intn(len(readSizes))]
	for n*(esize(c, t)+12) > 6000000 { // the formula's numbers are limited
		n /= 2
	}
	return n
}

func flatAt(v reflect.Value, at []int) []int {
	l := []int{}
	for _, i := range at {
		leaves(v.Index(i), func(x reflect.Value) { l = append(l, compBytes(x)...) })
	}
	return l
}

func largeRead(fn, c, t string, n int, r *rand.Rand) {
	begin()
	d, a, e := largeDoc(c, t, n, r)
	f := readerNamed(fn)
	res, o, err := f.call(d, a, randScratch(f, a, r))
	largeEmit(e, fn, n, res, o, err, r)
}

func largeEmit(e M, fn string, n int, res reflect.Value, o string, err error, r *rand.Rand) {
	at := samples(n, 30, r)
	m := with(e, M{"op": "large", "fn": fn, "at": at, "out": o, "err": errText(err), "gt": "", "n": -1, "flat": []int{}})
	if o == "ok" && res.IsValid() && res.Kind() == reflect.Slice {
		m["gt"], m["n"] = ascii(res.Type().String()), sat(res.Len())
		if res.Len() == n {
			m["flat"] = flatAt(res, at)
		}
	}
	emit(m)
}

func largeView(n int, r *rand.Rand) {
	begin()
	m := formula{r.Intn(256), 1 + 2*r.Intn(128), r.Intn(256), r.Intn(256)}
	off := r.Intn(pick(r, 1, 5, 70000))
	data := make([]byte, off+n+r.Intn(100))
	m.fill(data)
	v := &gltf.BufferView{Buffer: 1, ByteOffset: off, ByteLength: n}
	d := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: 2, Data: []byte{1, 2}}, {ByteLength: len(data), Data: data}}, BufferViews: []*gltf.BufferView{v}}
	var b []byte
	o, err := try(func() (err error) { b, err = modeler.ReadBufferView(d, v); return })
	a := &gltf.Accessor{ComponentType: gltf.ComponentUbyte, Type: gltf.AccessorScalar, BufferView: gltf.Index(0), Count: n}
	e := M{"start": 0, "step": 1, "v": viewProj(v), "vv": viewProj(v), "a": accProj(a), "m": M{"k0": m.k0, "k1": m.k1, "k2": m.k2, "k3": m.k3}}
	largeEmit(e, "ReadBufferView", n, reflect.ValueOf(b), o, err, r)
}

// largeReads are reads of thousands of elements by a reader.
func largeReads(r *rand.Rand, fns ...string) {
	for i := 0; i < tiers(2, 12); i++ {
		for _, c := range ctypes {
			for _, t := range ttypes {
				for _, fn := range fns {
					if fn == "ReadAccessor" || takes(fn, c.name, t.name) {
						largeRead(fn, c.name, t.name, largeSize(c.name, t.name, r), r)
						if fn == "ReadIndices" || t.name == "SCALAR" {
							largeRead(fn, c.name, t.name, 65536+r.Intn(3000), r)
						}
					}
				}
			}
		}
	}
}
