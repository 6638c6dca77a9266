package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"io"
	"io/fs"
	"math/rand"
	"runtime"

	"github.com/qmuntal/gltf"
)

// damaged decodes an input that is not (or may not be) a well-formed document. The event
// has what the specification needs to know to tell whether decoding must fail.
func damaged(m M, rd io.Reader, fsys fs.FS) {
	note(m)
	d := new(gltf.Document)
	fed := &fedReader{r: rd}
	if b, ok := rd.(*bytes.Reader); ok && damageRand.Intn(3) == 0 { // as another kind of stream
		all, err := io.ReadAll(b)
		check(err)
		fed.n = len(all)
		rd = portions(pick(damageRand, portionKinds...), all, 0, damageRand)
	} else {
		rd = fed
	}
	if f, ok := fsys.(*memFS); ok {
		for _, b := range f.files {
			fed.n += len(b)
		}
	}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	o, err := try(func() error {
		if fsys == nil {
			return gltf.NewDecoder(rd).Decode(d)
		}
		return gltf.NewDecoderFS(rd, fsys).Decode(d)
	})
	runtime.ReadMemStats(&after)
	m["fed"], m["alloc"] = sat(fed.n), sat(int(after.TotalAlloc-before.TotalAlloc))
	m["out"], m["err"] = o, errText(err)
	// length and declared length of the buffer that comes from the binary chunk
	m["binLen"], m["binDecl"] = -1, -1
	if o == "ok" && len(d.Buffers) > 0 && d.Buffers[0] != nil && d.Buffers[0].URI == "" {
		m["binLen"], m["binDecl"] = len(d.Buffers[0].Data), sat(d.Buffers[0].ByteLength)
	}
	emit(m)
}

var damageRand = rand.New(rand.NewSource(1))

// fedReader counts what it delivers.
type fedReader struct {
	r io.Reader
	n int
}

func (f *fedReader) Read(b []byte) (int, error) {
	n, err := f.r.Read(b)
	f.n += n
	return n, err
}

// prefixInts is the first n bytes, or fewer.
func prefixInts(b []byte, from, n int) []int {
	if from > len(b) {
		return []int{}
	}
	b = b[from:]
	if len(b) > n {
		b = b[:n]
	}
	return ints(b)
}

// glbEvent describes a container; avail is what the reader gets to see of it.
func glbEvent(kind string, b []byte, jend, jchunk int, need bool, blen, avail int) M {
	return M{"op": "damage", "kind": kind, "h": prefixInts(b[:avail], 0, 20), "jsonEnd": jend, "need": need,
		"blen": blen, "bh": prefixInts(b[:avail], 20+jchunk, 8), "avail": avail}
}

func glbDamage(r *rand.Rand) {
	n := tiers(12, 150)
	for i := 0; i < n; i++ {
		begin()
		c := &container{hasBin: i%4 != 0}
		var buffers []M
		if c.hasBin {
			c.bin = randBytes(r, 1+r.Intn(9))
			buffers = []M{{"byteLength": len(c.bin)}}
		}
		c.text = bareText(r, buffers, false)
		c.jpad = (4-len(c.text)%4)%4 + 4*r.Intn(2)
		c.bpad = (4 - len(c.bin)%4) % 4
		b := c.bytes()
		jend, jchunk := len(c.text), len(c.text)+c.jpad
		ev := func(kind string, avail int) M { return glbEvent(kind, b, jend, jchunk, c.hasBin, len(c.bin), avail) }
		// cut at every byte, by end of input and by a failing reader
		for cut := 0; cut <= len(b); cut++ {
			damaged(ev("cut", cut), bytes.NewReader(b[:cut]), nil)
			if cut < len(b) {
				p := portions(pick(r, "whole", "wholeEOF", "random"), b[:cut], 0, r).(*partReader)
				p.err = nextReadFailure()
				damaged(ev("reader fails", cut), p, nil)
			}
		}
		// the text form likewise
		if !c.hasBin {
			for cut := 0; cut < len(c.text); cut++ {
				damaged(M{"op": "damageText", "kind": "cut", "jsonEnd": jend, "avail": cut}, bytes.NewReader(c.text[:cut]), nil)
				p := portions("random", c.text[:cut], 0, r).(*partReader)
				p.err = nextReadFailure()
				damaged(M{"op": "damageText", "kind": "reader fails", "jsonEnd": jend, "avail": cut}, p, nil)
			}
		}
		// one header word changed
		type field struct {
			name string
			pos  int
		}
		fields := []field{{"version", 4}, {"total", 8}, {"jlen", 12}, {"jtype", 16}}
		if c.hasBin {
			fields = append(fields, field{"blen", 20 + jchunk}, field{"btype", 24 + jchunk})
		}
		orig := append([]byte(nil), b...)
		word := func(p int) int { return int(orig[p]) | int(orig[p+1])<<8 | int(orig[p+2])<<16 | int(orig[p+3])<<24 }
		for _, f := range fields {
			w := word(f.pos)
			vals := []int{0, 1, w - 1, w + 1, w - 4, w + 4, w - 8, w + 8, 19, 20, 28, 0x7fffffff, 0x80000000, 0xffffffff, 0xffffffec, 0xfffffff0,
				0x4e4f534a, 0x004e4942, 0x46546c67, w + 100000, w ^ 0x20, w ^ 0x20000000, r.Intn(1 << 32)}
			for _, v := range vals {
				copy(b, orig)
				copy(b[f.pos:], le32(v))
				damaged(ev("word "+f.name, len(b)), bytes.NewReader(b), nil)
			}
			// two words at once
			for k := 0; k < 4; k++ {
				copy(b, orig)
				copy(b[f.pos:], le32(vals[r.Intn(len(vals))]))
				g := fields[r.Intn(len(fields))]
				copy(b[g.pos:], le32(word(g.pos)+pick(r, -8, -4, 4, 8, 28, 0x7fff0000)))
				damaged(ev("words "+f.name+" "+g.name, len(b)), bytes.NewReader(b), nil)
			}
		}
		copy(b, orig)
		// total consistent with a smaller or larger binary chunk
		if c.hasBin {
			for _, k := range []int{-4, -1, 1, 4, 1000} {
				copy(b, orig)
				copy(b[8:], le32(word(8)+k))
				copy(b[20+jchunk:], le32(word(20+jchunk)+k))
				damaged(ev("binary chunk resized", len(b)), bytes.NewReader(b), nil)
			}
			// a chunk of another type takes the place of the binary chunk, which comes later
			for _, ct := range []int{0x00545845, 0x4e4f534a, 0, 0x004e4941, 0x4e494200, 0xffffffff, 0x006e6962} {
				for _, cl := range []int{0, 4, len(c.bin), 8, 40} {
					ins := append(append(le32(cl), le32(ct)...), randBytes(r, cl)...)
					b2 := append([]byte(nil), orig[:20+jchunk]...)
					b2 = append(append(b2, ins...), orig[20+jchunk:]...)
					copy(b2[8:], le32(word(8)+len(ins)))
					damaged(glbEvent("foreign chunk first", b2, jend, jchunk, true, len(c.bin), len(b2)), bytes.NewReader(b2), nil)
				}
			}
			copy(b, orig)
			// the declared length of the buffer exceeds the chunk
			for _, k := range []int{1, 2, 3, 4, 5, 1000, 1 << 20, 1 << 33, 1 << 40, 1<<63 - 1, -1, -len(c.bin), -2 * len(c.bin), -1 << 63} {
				c2 := *c
				c2.text = bareText(r, []M{{"byteLength": len(c.bin) + k}}, false)
				c2.jpad = (4 - len(c2.text)%4) % 4
				b2 := c2.bytes()
				e := glbEvent("declared length", b2, len(c2.text), len(c2.text)+c2.jpad, true, sat(len(c.bin)+k), len(b2))
				damaged(e, bytes.NewReader(b2), nil)
			}
		}
	}
	glbAbsent(r)
	glbResources(r)
	glbGarbage(r)
}

// glbAbsent decodes containers that declare, consistently, much more than they hold.
func glbAbsent(r *rand.Rand) {
	for _, n := range []int{1 << 16, 1 << 20, 5 << 20, 64 << 20, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 4096} {
		for _, have := range []int{0, 1, 3, 100, 5000} {
			begin()
			c := &container{text: bareText(r, []M{{"byteLength": n}}, false), hasBin: true, bin: randBytes(r, have)}
			c.jpad = (4 - len(c.text)%4) % 4
			b := c.bytes()
			jchunk := len(c.text) + c.jpad
			copy(b[8:], le32(28+jchunk+n))
			copy(b[20+jchunk:], le32(n))
			damaged(glbEvent("absent bytes", b, len(c.text), jchunk, true, sat(n), len(b)), bytes.NewReader(b), nil)
			cut := len(b) - have/2
			damaged(glbEvent("absent bytes", b, len(c.text), jchunk, true, sat(n), cut), portions("random", b[:cut], 0, r), nil)
		}
	}
}

// glbResources lets external resources fail.
func glbResources(r *rand.Rand) {
	for i := 0; i < tiers(20, 200); i++ {
		begin()
		nb := 1 + r.Intn(3)
		var buffers []M
		files := map[string][]byte{}
		names := []string{"a.bin", "b.bin", "c.bin"}
		bad := r.Intn(nb)
		for k := 0; k < nb; k++ {
			f := randBytes(r, 1+r.Intn(20))
			files[names[k]] = f
			buffers = append(buffers, M{"byteLength": len(f), "uri": names[k]})
		}
		c := &container{text: bareText(r, buffers, false)}
		c.jpad = (4 - len(c.text)%4) % 4
		for _, form := range [][]byte{c.text, c.bytes()} {
			size := len(files[names[bad]])
			faults := []M{{"op": "resource", "kind": "none", "must": false}, {"op": "resource", "kind": "missing", "must": true}}
			for range failures {
				faults = append(faults, M{"op": "resource", "kind": "open fails", "must": true})
			}
			for k := 0; k < size; k++ {
				faults = append(faults, M{"op": "resource", "kind": "read fails", "at": k, "must": true})
			}
			for _, m := range faults {
				fsys := &memFS{files: map[string][]byte{}}
				for k, v := range files {
					fsys.files[k] = v
				}
				m["size"] = size
				at, _ := m["at"].(int)
				kind := m["kind"].(string)
				switch kind {
				case "missing":
					delete(fsys.files, names[bad])
				case "open fails", "read fails":
					fsys.fail = func(op, name string) int {
						if name == names[bad] && op == kind[:4] {
							return at + 1
						}
						return 0
					}
				}
				damaged(m, bytes.NewReader(form), fsys)
			}
		}
	}
}

var junkValues = []any{nil, true, false, 0, -1, 1.5, 1e300, "x", "", []any{}, []any{nil}, M{}, M{"a": nil}, json.RawMessage("99999999999999999999"),
	json.RawMessage("-9223372036854775808"), json.RawMessage("9223372036854775807"), "data:application/octet-stream;base64", "data:application/octet-stream;base64,",
	"data:application/octet-stream;base64,!!", "data:image/png;base64", "%zz", "\u0000"}

// mutateJSON replaces one random value of a JSON tree.
func mutateJSON(v any, r *rand.Rand) any {
	switch t := v.(type) {
	case map[string]any:
		if len(t) == 0 || r.Intn(8) == 0 {
			break
		}
		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sortStrings(keys)
		k := keys[r.Intn(len(keys))]
		if r.Intn(10) == 0 {
			delete(t, k)
			return t
		}
		t[k] = mutateJSON(t[k], r)
		return t
	case []any:
		if len(t) == 0 || r.Intn(8) == 0 {
			break
		}
		i := r.Intn(len(t))
		t[i] = mutateJSON(t[i], r)
		return t
	}
	switch j := junkValues[r.Intn(len(junkValues))].(type) {
	case []any:
		return append([]any{}, j...)
	case M:
		return map[string]any{"a": nil}
	default:
		return j
	}
}

// A document with about every kind of object.
const fullText = `{"asset":{"version":"2.0","minVersion":"2.0","extras":{"a":1}},"extensionsUsed":["E"],"extensionsRequired":["E"],
"extensions":{"E":{"x":[1]},"KHR_lights_punctual":{"lights":[{"type":"spot","spot":{"innerConeAngle":0.1}},{"type":"point"}]}},
"accessors":[{"bufferView":0,"byteOffset":0,"componentType":5126,"normalized":false,"count":2,"type":"VEC3","max":[1,2,3],"min":[0,0,0],
"sparse":{"count":1,"indices":{"bufferView":1,"byteOffset":0,"componentType":5123},"values":{"bufferView":2,"byteOffset":0}}}],
"animations":[{"name":"an","channels":[{"sampler":0,"target":{"node":0,"path":"translation"}}],"samplers":[{"input":0,"output":0,"interpolation":"STEP"}]}],
"buffers":[{"byteLength":4},{"byteLength":3,"uri":"data:application/octet-stream;base64,AAEC","name":"b"},{"byteLength":2,"uri":"f.bin"}],
"bufferViews":[{"buffer":0,"byteOffset":0,"byteLength":4,"byteStride":4,"target":34962},{"buffer":1,"byteLength":2,"target":34963}],
"cameras":[{"type":"perspective","perspective":{"yfov":1,"znear":0.1,"zfar":10,"aspectRatio":1}},{"type":"orthographic","orthographic":{"xmag":1,"ymag":1,"zfar":2,"znear":1}}],
"images":[{"uri":"i.png"},{"bufferView":0,"mimeType":"image/png"},{"uri":"data:image/png;base64,AAAA"}],
"materials":[{"name":"m","pbrMetallicRoughness":{"baseColorFactor":[1,0.5,0,1],"baseColorTexture":{"index":0,"texCoord":1,"extensions":{"KHR_texture_transform":{"offset":[0,1],"scale":[2,2],"rotation":1,"texCoord":1}}},"metallicFactor":0,"roughnessFactor":0.5,"metallicRoughnessTexture":{"index":0}},
"normalTexture":{"index":0,"scale":2},"occlusionTexture":{"index":0,"strength":0.5},"emissiveTexture":{"index":0},"emissiveFactor":[1,1,1],"alphaMode":"MASK","alphaCutoff":0.3,"doubleSided":true,
"extensions":{"KHR_materials_unlit":{},"KHR_materials_pbrSpecularGlossiness":{"diffuseFactor":[1,1,1,1],"diffuseTexture":{"index":0},"specularFactor":[1,0,1],"glossinessFactor":0.5,"specularGlossinessTexture":{"index":0}}}}],
"meshes":[{"primitives":[{"attributes":{"POSITION":0,"NORMAL":0},"indices":0,"material":0,"mode":5,"targets":[{"POSITION":0}]}],"weights":[0.5],"extras":{"targetNames":["t"]}}],
"nodes":[{"name":"n","children":[1],"mesh":0,"camera":0,"skin":0,"weights":[1]},{"matrix":[1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1]},{"rotation":[0,0,0,1],"scale":[1,2,3],"translation":[1,2,3],"extensions":{"KHR_lights_punctual":{"light":0}}}],
"samplers":[{"magFilter":9728,"minFilter":9987,"wrapS":33071,"wrapT":33648}],"scene":0,"scenes":[{"nodes":[0,2]}],
"skins":[{"inverseBindMatrices":0,"skeleton":0,"joints":[0,1]}],"textures":[{"sampler":0,"source":0}]}`

// glbGarbage decodes arbitrary input: it may fail or not, but it must end.
func glbGarbage(r *rand.Rand) {
	fsys := &memFS{files: map[string][]byte{"f.bin": {1, 2}, "x": {1}}}
	one := func(kind string, text []byte, binary bool) {
		b := text
		if binary {
			c := &container{text: text, jpad: (4 - len(text)%4) % 4, hasBin: true, bin: []byte{1, 2, 3, 4}}
			b = c.bytes()
		}
		damaged(M{"op": "garbage", "kind": kind, "input": base64.StdEncoding.EncodeToString(b)}, bytes.NewReader(b), fsys)
	}
	begin()
	for _, bin := range []bool{false, true} {
		one("sample", []byte(fullText), bin)
		for _, t := range []string{``, `null`, `[]`, `0`, `"glTF"`, `{`, `{}`, `{"buffers":null}`, `{"buffers":[null]}`, `{"images":[null]}`, `{"buffers":[{}]}`, `{"buffers":[{"byteLength":-1}]}`,
			`{"buffers":[{"byteLength":4},null]}`, `{"buffers":[{"byteLength":1e3}]}`, `{"asset":null}`, `{"buffers":{}}`, `{"images":[{"uri":null}]}`, `{"nodes":[null],"meshes":[null],"scenes":[null]}`,
			`{"meshes":[{"primitives":[null]}]}`, `{"accessors":[null]}`, `{"accessors":[{"sparse":null}]}`, `{"accessors":[{"sparse":{}}]}`, `{"materials":[null]}`, `{"materials":[{"extensions":null}]}`,
			`{"materials":[{"extensions":{"KHR_materials_unlit":null}}]}`, `{"extensions":{"KHR_lights_punctual":null}}`, `{"extensions":{"KHR_lights_punctual":{"lights":[null]}}}`, `{"extensions":{"KHR_lights_punctual":[]}}`,
			`{"nodes":[{"extensions":{"KHR_lights_punctual":{"light":null}}}]}`, `{"nodes":[{"extensions":{"KHR_lights_punctual":{"light":-1}}}]}`,
			`{"materials":[{"extensions":{"KHR_materials_pbrSpecularGlossiness":null}}]}`, `{"textures":[{"extensions":{"KHR_texture_transform":null}}]}`, `{"cameras":[null]}`, `{"cameras":[{}]}`, `{"cameras":[{"perspective":null}]}`,
			`{"skins":[null],"samplers":[null],"textures":[null],"animations":[null],"bufferViews":[null]}`, `{"animations":[{"channels":[null],"samplers":[null]}]}`,
			`{"buffers":[{"byteLength":4,"uri":""},{"byteLength":4,"uri":""}]}`, `{"buffers":[{"byteLength":2,"uri":"data:application/octet-stream;base64"}]}`, "\xff\xfe{}", "glTF", "{\"a\":\x00}"} {
			one("special", []byte(t), bin)
		}
	}
	var tree any
	check(json.Unmarshal([]byte(fullText), &tree))
	for i := tiers(1500, 40000); i > 0; i-- {
		if i%50 == 0 {
			begin()
		}
		var t any
		check(json.Unmarshal([]byte(fullText), &t))
		for k := 1 + r.Intn(3); k > 0; k-- {
			t = mutateJSON(t, r)
		}
		b, err := json.Marshal(t)
		check(err)
		one("mutated value", b, r.Intn(2) == 0)
	}
	for i := tiers(500, 20000); i > 0; i-- {
		if i%50 == 0 {
			begin()
		}
		b := []byte(fullText)
		for k := 1 + r.Intn(4); k > 0; k-- {
			p := r.Intn(len(b))
			switch r.Intn(3) {
			case 0:
				b[p] = byte(r.Intn(256))
			case 1:
				b = append(b[:p], b[p+1:]...)
			case 2:
				q := r.Intn(len(b))
				if q > p {
					b = append(b[:p], b[q:]...)
				}
			}
		}
		one("mutated text", b, r.Intn(2) == 0)
		g := randBytes(r, r.Intn(60))
		if r.Intn(2) == 0 {
			g = append([]byte("glTF\x02\x00\x00\x00"), g...)
		}
		damaged(M{"op": "garbage", "kind": "random bytes", "input": base64.StdEncoding.EncodeToString(g)}, bytes.NewReader(g), fsys)
	}
}
