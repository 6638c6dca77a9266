package main

import (
	"math"
	"math/rand"
	"reflect"
	"sort"

	"github.com/qmuntal/gltf"
)

func init() { drivers["norm"] = norm }

// key orders floats like the numbers.
func key(f float32) int {
	if f != f {
		return 2139095041
	}
	b := int(math.Float32bits(f))
	if b >= 1<<31 {
		return -(b & (1<<31 - 1))
	}
	return b
}

func unkey(k int) float32 {
	if k < 0 {
		return -math.Float32frombits(uint32(-k))
	}
	return math.Float32frombits(uint32(k))
}

var normKinds = []struct {
	kind      string
	lo, hi    int
	norm, den any
}{
	{"byte", -128, 127, gltf.NormalizeByte, gltf.DenormalizeByte},
	{"ubyte", 0, 255, gltf.NormalizeUbyte, gltf.DenormalizeUbyte},
	{"short", -32768, 32767, gltf.NormalizeShort, gltf.DenormalizeShort},
	{"ushort", 0, 65535, gltf.NormalizeUshort, gltf.DenormalizeUshort},
}

var colourKinds = []struct {
	kind      string
	hi, n     int
	norm, den any
}{
	{"ubyte", 255, 3, gltf.NormalizeRGB, gltf.DenormalizeRGB},
	{"ubyte", 255, 4, gltf.NormalizeRGBA, gltf.DenormalizeRGBA},
	{"ushort", 65535, 3, gltf.NormalizeRGB64, gltf.DenormalizeRGB64},
	{"ushort", 65535, 4, gltf.NormalizeRGBA64, gltf.DenormalizeRGBA64},
}

// tuple makes the argument of a conversion from its channels, untuple the reverse.
func tuple(t reflect.Type, x []int) reflect.Value {
	v := reflect.New(t).Elem()
	i := 0
	leaves(v, func(c reflect.Value) {
		switch c.Kind() {
		case reflect.Float32:
			c.SetFloat(float64(unkey(x[i])))
		case reflect.Int8, reflect.Int16:
			c.SetInt(int64(x[i]))
		default:
			c.SetUint(uint64(x[i]))
		}
		i++
	})
	return v
}

func untuple(v reflect.Value) (x []int) {
	leaves(v, func(c reflect.Value) {
		switch c.Kind() {
		case reflect.Float32:
			x = append(x, key(float32(c.Float())))
		case reflect.Int8, reflect.Int16:
			x = append(x, int(c.Int()))
		default:
			x = append(x, int(c.Uint()))
		}
	})
	return
}

func normEvent(op, kind string, in [][]int, fs ...any) {
	begin()
	out := [][]int{}
	o, err := try(func() error {
		for _, x := range in {
			f := reflect.ValueOf(fs[0])
			v := f.Call([]reflect.Value{tuple(f.Type().In(0), x)})[0]
			if len(fs) > 1 {
				v = reflect.ValueOf(fs[1]).Call([]reflect.Value{v})[0]
			}
			out = append(out, untuple(v))
		}
		return nil
	})
	emit(M{"op": op, "kind": kind, "in": in, "out": out, "outcome": o, "err": errText(err)})
}

// batches calls f with up to n values at a time, the last of one being the first of the next.
func batches(all []int, n int, f func([]int)) {
	for len(all) > 1 {
		k := least(n, len(all))
		f(all[:k])
		all = all[k-1:]
	}
}

// columns puts different stretches of the values into the channels, some in reverse.
func columns(x []int, hi, n int, last []int) [][]int {
	var in [][]int
	for i := range x {
		t := []int{x[i], hi - x[i], x[len(x)-1-i]}
		if n == 4 {
			t = append(t, last[i])
		}
		in = append(in, t)
	}
	return in
}

func norm(r *rand.Rand) {
	for _, k := range normKinds {
		var all []int
		for v := k.lo; v <= k.hi; v++ {
			all = append(all, v)
		}
		single := func(x []int) (in [][]int) {
			for _, v := range x {
				in = append(in, []int{v})
			}
			return
		}
		batches(all, 512, func(x []int) {
			normEvent("den", k.kind, single(x), k.den)
			normEvent("round", k.kind, single(x), k.den, k.norm)
		})
		// floats around every boundary between integers, and others
		var fl []int
		step := 1
		if k.hi > 1000 && !thorough {
			step = 5 + r.Intn(7)
		}
		lo := 0
		if k.lo < 0 {
			lo = -k.hi
		}
		for v := lo; v < k.hi; v += step {
			b := key(float32((float64(v) + 0.5) / float64(k.hi)))
			for d := -2; d <= 2; d++ {
				fl = append(fl, b+d)
			}
			fl = append(fl, key(float32((float64(v)+r.Float64())/float64(k.hi))))
		}
		fl = append(fl, 0, 1, key(1), key(1)-1, key(0.5), key(0.25), key(1e-30))
		if lo < 0 {
			fl = append(fl, -key(1), -key(1)+1, -1)
		}
		for i := 0; i < tiers(500, 20000); i++ {
			x := r.Intn(key(1) + 1)
			if lo < 0 && r.Intn(2) == 0 {
				x = -x
			}
			fl = append(fl, x)
		}
		batches(fl, 512, func(x []int) { normEvent("norm", k.kind, single(x), k.norm) })
	}
	for _, k := range colourKinds {
		var all []int
		step := 1
		if k.hi > 1000 && !thorough {
			step = 3
		}
		for v := 0; v <= k.hi; v += step {
			all = append(all, v)
		}
		all = append(all, k.hi)
		batches(all, 256, func(x []int) {
			in := columns(x, k.hi, k.n, x)
			normEvent("cden", k.kind, in, k.den)
			normEvent("cround", k.kind, in, k.den, k.norm)
		})
		var fl []int
		for _, v := range all {
			y := float64(v) / float64(k.hi)
			lin := y / 12.92
			if y > 0.04045 {
				lin = math.Pow((y+0.055)/1.055, 2.4)
			}
			b := key(float32(lin))
			fl = append(fl, least(most(b-1-r.Intn(200), 0), key(1)), b, least(b+1+r.Intn(200), key(1)), key(float32(y)))
		}
		for i := 0; i < 300; i++ {
			fl = append(fl, r.Intn(key(1)+1), key(r.Float32()), key(0.003+r.Float32()*0.0003))
		}
		sort.Ints(fl)
		batches(fl, 256, func(x []int) {
			var in [][]int
			for i := range x {
				t := []int{x[i], x[len(x)-1-i], x[i]}
				if k.n == 4 {
					t = append(t, x[i])
				}
				in = append(in, t)
			}
			normEvent("cnorm", k.kind, in, k.norm)
		})
		for i := 0; i < tiers(20, 400); i++ { // unrelated channels: no monotonicity across
			t := []int{}
			u := []int{}
			for c := 0; c < k.n; c++ {
				t = append(t, pick(r, 0, key(1), r.Intn(key(1)), key(r.Float32())))
				u = append(u, pick(r, 0, k.hi, r.Intn(k.hi+1)))
			}
			normEvent("cnorm", k.kind, [][]int{t}, k.norm)
			normEvent("cround", k.kind, [][]int{u}, k.den, k.norm)
			normEvent("cden", k.kind, [][]int{u}, k.den)
		}
	}
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func most(a, b int) int { return a + b - least(a, b) }
