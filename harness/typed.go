package main

import (
	"encoding/binary"
	"encoding/json"
	"math"
	"math/rand"
	"reflect"

	"github.com/qmuntal/gltf"
)

func init() { drivers["typed"] = typed }

type typedScn struct {
	Fn, C, T, IC string
	N, Over      int
	Norm         bool
}

func typedCall(d *gltf.Document, a *gltf.Accessor, name string, r *rand.Rand) {
	begin()
	f := readerNamed(name)
	buf := reflect.Value{}
	if r.Intn(2) == 0 {
		buf = randScratch(f, a, r)
	}
	res, o, err := f.call(d, a, buf)
	m := with(M{"op": "typed", "fn": name, "d": accDoc(d), "a": accProj(a), "err": errText(err)}, resultOf(res, o))
	if o == "ok" && res.IsValid() && res.Kind() == reflect.Slice {
		m["flat"] = flatOf(res)
	}
	emit(m)
}

// valuesDoc has an accessor whose components are the given numbers.
func valuesDoc(c, t string, comps []uint32, norm bool) (*gltf.Document, *gltf.Accessor) {
	cs := int(ctypes[cindex(c)].t.Size())
	per := ttypes[tindex(t)].rows * ttypes[tindex(t)].cols
	n := len(comps) / per
	data := make([]byte, n*esize(c, t))
	for i := 0; i < n; i++ {
		for j := 0; j < per; j++ { // no typed reader takes matrices with padding
			o, x := i*esize(c, t)+j*cs, comps[i*per+j]
			if t == "MAT4" {
				o = i*64 + (j%4)*16 + (j/4)*4
			}
			switch cs {
			case 1:
				data[o] = byte(x)
			case 2:
				binary.LittleEndian.PutUint16(data[o:], uint16(x))
			case 4:
				binary.LittleEndian.PutUint32(data[o:], x)
			}
		}
	}
	d := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: len(data), Data: data}}, BufferViews: []*gltf.BufferView{{ByteLength: len(data)}}}
	return d, &gltf.Accessor{BufferView: gltf.Index(0), ComponentType: ctypes[cindex(c)].c, Type: ttypes[tindex(t)].t, Count: n, Normalized: norm}
}

func typed(r *rand.Rand) {
	scenarios(func(line []byte) {
		var s typedScn
		check(json.Unmarshal(line, &s))
		b := &accBuilder{d: new(gltf.Document), r: r, apart: s.C == "float"}
		a := b.accessor(accScn{C: s.C, T: s.T, N: s.N, Over: s.Over, IC: s.IC, SN: 1 + r.Intn(3), Off: r.Intn(8), Voff: r.Intn(3)}, true)
		a.Normalized = s.Norm
		if s.C == "float" && (s.Fn == "ReadColor" || s.Fn == "ReadColor64") {
			unitFloats(b.d, r)
		}
		typedCall(b.d, a, s.Fn, r)
	})
	for _, f := range readers()[1:] {
		largeReads(r, f.name)
	}
	// numbers that readers might be tempted to mend: weights that add up to about one, vectors of about unit length
	for i := 0; i < tiers(6, 60); i++ {
		for _, c := range []string{"ubyte", "ushort", "float"} {
			top := map[string]float64{"ubyte": 255, "ushort": 65535, "float": 1}[c]
			for _, f := range readers()[1:] {
				for _, t := range []string{"VEC2", "VEC3", "VEC4"} {
					if !takes(f.name, c, t) {
						continue
					}
					var comps []uint32
					per := ttypes[tindex(t)].rows
					for n := 0; n < 24; n++ {
						comps = append(comps, nearOne(per, top, c == "float", f.name == "ReadNormal" || f.name == "ReadTangent", r)...)
					}
					d, a := valuesDoc(c, t, comps, c != "float" && f.name != "ReadJoints")
					typedCall(d, a, f.name, r)
				}
			}
		}
	}
	// codes no type has
	for _, f := range readers()[1:] {
		for c := 0; c < 9; c++ {
			for t := 0; t < 10; t++ {
				if cname(gltf.ComponentType(c))[0] != '?' && tname(gltf.AccessorType(t))[0] != '?' {
					continue
				}
				d, a := valuesDoc("float", "VEC4", make([]uint32, 12), false)
				a.ComponentType, a.Type = gltf.ComponentType(c), gltf.AccessorType(t)
				typedCall(d, a, f.name, r)
			}
		}
	}
	// all values of one and two bytes
	for _, f := range readers()[1:] {
		for _, c := range []string{"ubyte", "ushort", "uint", "float"} {
			for _, t := range []string{"SCALAR", "VEC2", "VEC3", "VEC4", "MAT4"} {
				if !takes(f.name, c, t) {
					continue
				}
				var vals []uint32
				for i := 0; ; i++ {
					x := uint32(i)
					if c == "ubyte" && i > 255 || i > 65535 {
						break
					}
					if c == "ushort" && !thorough && i%17 != r.Intn(17) && i%256 > 2 && i%256 < 254 {
						continue
					}
					if c == "uint" || c == "float" {
						if i >= tiers(600, 12000) {
							break
						}
						x = randComp(r)
						if c == "float" {
							if f.name == "ReadColor" || f.name == "ReadColor64" {
								x = math.Float32bits(unit(r))
							}
							if x&0x7f800000 == 0x7f800000 {
								x = 0
							}
						}
					}
					vals = append(vals, x)
				}
				per := ttypes[tindex(t)].rows * ttypes[tindex(t)].cols
				for shift := 0; shift < per; shift++ { // so that other channels get the values too
					if shift > 0 && c != "ubyte" && !thorough {
						break
					}
					v := append(append([]uint32(nil), vals[len(vals)-shift:]...), vals...)
					for len(v) >= per {
						k := per * 96
						if k > len(v) {
							k = len(v) / per * per
						}
						d, a := valuesDoc(c, t, v[:k], c != "float" && f.name != "ReadJoints" && f.name != "ReadIndices")
						typedCall(d, a, f.name, r)
						v = v[k:]
					}
				}
			}
		}
	}
}

// nearOne makes n components that add up to about top, or whose squares do.
func nearOne(n int, top float64, float, square bool, r *rand.Rand) []uint32 {
	p, sum := make([]float64, n), 0.0
	for i := range p {
		p[i] = float64(r.Intn(4)) * r.Float64()
		if square {
			sum += p[i] * p[i]
		} else {
			sum += p[i]
		}
	}
	if sum == 0 {
		p[0], sum = 1, 1
	}
	if square {
		sum = math.Sqrt(sum)
	}
	var l []uint32
	rest := top
	for i, x := range p {
		x = x / sum * top
		if !float {
			x = math.Floor(x)
			rest -= x
			if i == n-1 && !square && rest > 0 && r.Intn(3) > 0 {
				x += rest + float64(r.Intn(3)-1)
			}
			l = append(l, uint32(math.Max(0, math.Min(top, x))))
		} else {
			x *= 1 + float64(r.Intn(3)-1)*math.Pow(10, -float64(2+r.Intn(5)))
			l = append(l, math.Float32bits(float32(math.Min(1, x))))
		}
	}
	return l
}

func takes(f, c, t string) bool {
	for _, n := range typedFor(ctypes[cindex(c)].c, ttypes[tindex(t)].t) {
		if n != f {
			continue
		}
		switch f {
		case "ReadIndices":
			return c == "ubyte" || c == "ushort" || c == "uint"
		case "ReadJoints":
			return c == "ubyte" || c == "ushort"
		case "ReadTextureCoord", "ReadWeights", "ReadColor", "ReadColor64":
			return c == "ubyte" || c == "ushort" || c == "float"
		}
		return c == "float"
	}
	return false
}

func unit(r *rand.Rand) float32 {
	switch r.Intn(4) {
	case 0:
		return pick(r, 0, 1, 0.5, math.Float32frombits(0x3f7fffff), 0.0031308, 0.003130799, 1e-20, 0.04045, 0.25)
	case 1:
		return unkey(r.Intn(key(1) + 1))
	}
	return r.Float32()
}

// unitFloats replaces the contents of all the buffers by numbers between 0 and 1.
func unitFloats(d *gltf.Document, r *rand.Rand) {
	for i, b := range d.Buffers {
		for _, v := range d.BufferViews {
			if v.Buffer == i && v.ByteLength >= 12 { // not those of indices
				for o := v.ByteOffset; o+4 <= v.ByteOffset+v.ByteLength; o += 4 {
					binary.LittleEndian.PutUint32(b.Data[o:], math.Float32bits(unit(r)))
				}
			}
		}
	}
}
