package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/qmuntal/gltf"
)

func init() {
	drivers["resources"] = func(r *rand.Rand) {
		switch scope {
		case "C09":
			storeAll(r)
		case "C10":
			uriAll(r)
		case "C26":
			dataURIs(r)
		}
	}
}

// A recording file system for hostile names: it never touches anything.
type recFS struct {
	names [][]int
	files map[string][]byte // nil: every name exists
}

func (f *recFS) Open(name string) (fs.File, error) {
	f.names = append(f.names, ints([]byte(name)))
	return &memFile{Reader: bytes.NewReader([]byte("abcdefgh")), name: "x", size: 8, fs: &memFS{}}, nil
}

type sinkWriter struct{ n int }

func (s *sinkWriter) Write(b []byte) (int, error) { s.n += len(b); return len(b), nil }
func (s *sinkWriter) Close() error                { return nil }

// ---------------------------------------------------------------- C10

func jsonString(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	check(e.Encode(s))
	return strings.TrimSpace(b.String())
}

// uriRead decodes a document whose buffers have the URIs.
func uriRead(uris []string, glb bool) *gltf.Document {
	var t strings.Builder
	t.WriteString(`{"asset":{"version":"2.0"},"buffers":[`)
	for i, u := range uris {
		if i > 0 {
			t.WriteByte(',')
		}
		t.WriteString(`{"byteLength":4,"uri":` + jsonString(u) + `}`)
	}
	t.WriteString(`],"images":[{"uri":` + jsonString(uris[0]) + `}]}`)
	in := []byte(t.String())
	if glb {
		c := &container{text: in, jpad: (4 - len(in)%4) % 4}
		in = c.bytes()
	}
	f := &recFS{names: [][]int{}}
	d := new(gltf.Document)
	o, err := try(func() error { return gltf.NewDecoderFS(bytes.NewReader(in), f).Decode(d) })
	emit(M{"op": "uriread", "uris": uriInts(uris), "glb": glb, "names": f.names, "out": o, "err": errText(err)})
	if o != "ok" {
		return nil
	}
	return d
}

func uriInts(uris []string) [][]int {
	l := [][]int{}
	for _, u := range uris {
		l = append(l, ints([]byte(u)))
	}
	return l
}

func uriWrite(uris []string, glb bool) {
	d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	for _, u := range uris {
		d.Buffers = append(d.Buffers, &gltf.Buffer{URI: u, ByteLength: 4, Data: []byte{1, 2, 3, 4}})
	}
	f := &createRec{names: [][]int{}}
	o, err := try(func() error {
		e := gltf.NewEncoderFS(&bytes.Buffer{}, f)
		e.AsBinary = glb
		return e.Encode(d)
	})
	emit(M{"op": "uriwrite", "uris": uriInts(uris), "glb": glb, "names": f.names, "out": o, "err": errText(err)})
}

func uriAll(r *rand.Rand) {
	k := 0
	both := func(uris []string) {
		begin()
		k++
		d := uriRead(uris, k%3 == 0)
		uriWrite(uris, k%2 == 0)
		if d != nil { // encode what was decoded
			var again []string
			for _, b := range d.Buffers {
				again = append(again, b.URI)
			}
			uriWrite(again, k%2 == 1)
			if k%2 == 0 {
				uriRead(again, k%4 == 0)
			}
		}
	}
	scenarios(func(line []byte) {
		var s struct{ Uri []int }
		check(json.Unmarshal(line, &s))
		b := make([]byte, len(s.Uri))
		for i, c := range s.Uri {
			b[i] = byte(c)
		}
		both([]string{string(b)})
	})
	tok := []string{"..", "..", "..", ".", "/", "/", "/", "\\", "a", "b.bin", "%2e", "%2E", "%2f", "%2F", "%5c", "%5C", "%25", "%2e%2e", "%2e%2e%2f", "..%2f", "%00", "\x00",
		" ", "é", "日", "~", "#", "?", "&", "+", "C:", "c:\\", "//", "\\\\", "file://", "file:///", "http://h", "https://h/../", "data:", "%", "%z", "%2", "*", "...", ". .", "..;", "\t", "\n", "./", "/./", "/../", "%c0%ae", "[", "@"}
	for i := tiers(3000, 120000); i > 0; i-- {
		var uris []string
		for j := 1 + r.Intn(2)*r.Intn(2); j > 0; j-- {
			var b strings.Builder
			for n := 1 + r.Intn(8); n > 0; n-- {
				b.WriteString(tok[r.Intn(len(tok))])
			}
			uris = append(uris, b.String())
		}
		both(uris)
	}
	special := []string{"/etc/passwd", "..", "../", ".", "./", "", "a/..", "a/../..", "a/b/../../..", "a/b/../../../c", "..\\..\\x", "a\\..\\..\\x", "%2e%2e/x", "%2e%2e%2fx", "..%2fx", "..%5cx", "%2fetc", "%5cetc", "\\etc",
		".//../x", "a//../../x", "./../x", "././../x", "/./x", "a/./../../x", "%252e%252e/x", "%252e%252e%252fx", "http://h/../../x", "file:///etc/passwd", "file://x", "FILE://a.bin", "file://./a.bin", "file:///a.bin", "s3://b/a.bin", "x://y", "gltf://a/b.bin", "res://a.bin", "blob:http://a/b", "urn://a", "a://../b", "https://h/a.bin", "asset://a.bin", "file://localhost/a.bin", "ftp://a.bin", "HTTP://H/x", "h+t.t-p://x", "x.bin", "d/x.bin", "a b.bin",
		"a%20b.bin", "..a", "a..", "...", "..a/..b", "a/...", "....//x", "..././x", ".../...//x", "~/x", "a?../../x", "a#../../x", "?../x", "%2e/../x", "%2e%2e", "%2E%2E/%2E%2E/x", "a/%2e%2e/%2e%2e/x", "a%2f..%2f..%2fx", "a%5c..%5c..%5cx", "./%2e%2e/x", "%2e/%2e%2e/x", "\\\\host\\x", "//host/x", "///x", ".\\..\\x", "x/\\..\\..\\..\\y"}
	for _, s := range special {
		if s != "" {
			both([]string{s})
			both([]string{"ok.bin", s})
			both([]string{s, "ok.bin"})
		}
	}
	uriReal(r)
}

// createRec records creations and discards what is written.
type createRec struct {
	names [][]int
}

func (c *createRec) Open(name string) (fs.File, error) {
	c.names = append(c.names, ints([]byte(name)))
	return nil, fs.ErrNotExist
}

func (c *createRec) Create(name string) (io.WriteCloser, error) {
	c.names = append(c.names, ints([]byte(name)))
	return &sinkWriter{}, nil
}

// uriReal decodes and encodes with the library's own directory file system. The directory
// is nested in the scratch directory, so that names that escape stay inside the latter.
func uriReal(r *rand.Rand) {
	for _, u := range []string{"../x.bin", "../../x.bin", "%2e%2e/x.bin", "..%2fx.bin", "..\\x.bin", "a/../../x.bin", "a/../x.bin", "x.bin", "a/x.bin", "./x.bin", "a/../../../x.bin", "%2e%2e%5cx.bin", "a\\..\\..\\x.bin"} {
		for _, glb := range []bool{false, true} {
			begin()
			root := filepath.Join(scratch, "c10")
			dir := filepath.Join(root, "1", "2", "3")
			check(os.MkdirAll(filepath.Join(dir, "a"), 0o755))
			before := tree(root, dir)
			d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{URI: u, ByteLength: 4, Data: []byte{1, 2, 3, 4}}}}
			save := gltf.Save
			if glb {
				save = gltf.SaveBinary
			}
			o, err := try(func() error { return save(d, filepath.Join(dir, "m.gltf")) })
			emit(M{"op": "realwrite", "uris": uriInts([]string{u}), "names": [][]int{}, "out": o, "err": errText(err), "outside": same(before == tree(root, dir))})
			// reading: every place that could be reached has such a file, with its place as contents
			for _, p := range []string{root, filepath.Join(root, "1"), filepath.Join(root, "1", "2")} {
				check(os.WriteFile(filepath.Join(p, "x.bin"), []byte("OUTSIDE!"), 0o644))
			}
			check(os.WriteFile(filepath.Join(dir, "x.bin"), []byte("inside.."), 0o644))
			check(os.WriteFile(filepath.Join(dir, "a", "x.bin"), []byte("inside.."), 0o644))
			text := `{"asset":{"version":"2.0"},"buffers":[{"byteLength":4,"uri":` + jsonString(u) + `}]}`
			check(os.WriteFile(filepath.Join(dir, "m.gltf"), []byte(text), 0o644))
			var got *gltf.Document
			o, err = try(func() (err error) { got, err = gltf.Open(filepath.Join(dir, "m.gltf")); return })
			leak := false
			if o == "ok" && got != nil && len(got.Buffers) == 1 {
				leak = bytes.HasPrefix(got.Buffers[0].Data, []byte("OUT"))
			}
			emit(M{"op": "realread", "uris": uriInts([]string{u}), "names": [][]int{}, "out": o, "err": errText(err), "outside": same(!leak)})
			os.RemoveAll(root)
		}
	}
}

// tree lists the files below root that are not below dir.
func tree(root, dir string) string {
	var l []string
	filepath.Walk(root, func(p string, i fs.FileInfo, err error) error {
		if err == nil && !strings.HasPrefix(p, dir) {
			b, _ := os.ReadFile(p)
			l = append(l, p+"="+string(b))
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "|")
}

// ---------------------------------------------------------------- C09

type storeScn struct {
	Kinds      []string
	Full       []bool
	Binary, Fs bool
}

func bufProj(d *gltf.Document) []M {
	l := []M{}
	for _, b := range d.Buffers {
		l = append(l, M{"uri": ints([]byte(b.URI)), "data": ints(b.Data), "blen": b.ByteLength})
	}
	return l
}

func fileProj(files map[string][]byte) []M {
	var names []string
	for k := range files {
		names = append(names, k)
	}
	sort.Strings(names)
	l := []M{}
	for _, k := range names {
		l = append(l, M{"name": ints([]byte(k)), "data": ints(files[k])})
	}
	return l
}

// textBuffers extracts from an encoded document the URIs of the buffers, and the binary chunk.
func textBuffers(out []byte) (uris [][]int, bin []int, hasBin bool) {
	uris, bin = [][]int{}, []int{}
	text := out
	if len(out) >= 20 && string(out[:4]) == "glTF" {
		n := int(binary.LittleEndian.Uint32(out[12:]))
		if n > len(out)-20 {
			return
		}
		text = out[20 : 20+n]
		if rest := out[20+n:]; len(rest) >= 8 {
			bin, hasBin = ints(rest[8:]), true
		}
	}
	var t struct{ Buffers []struct{ Uri string } }
	if json.Unmarshal(text, &t) == nil {
		for _, b := range t.Buffers {
			uris = append(uris, ints([]byte(b.Uri)))
		}
	}
	return
}

// storeLoad encodes the document, logs what happened to the resources, and decodes it again.
func storeLoad(d *gltf.Document, bin, withFS, real bool, files map[string][]byte, r *rand.Rand) *gltf.Document {
	ev := M{"op": "store", "binary": bin, "fs": withFS || real, "real": real, "bufs": bufProj(d), "before": fileProj(files)}
	var out []byte
	fsys := &memFS{files: files}
	dir := filepath.Join(scratch, "c09", "deep", "er")
	var o string
	var err error
	if real {
		check(os.MkdirAll(dir, 0o755))
		defer os.RemoveAll(filepath.Join(scratch, "c09"))
		for k, v := range files {
			check(os.MkdirAll(filepath.Dir(filepath.Join(dir, k)), 0o755))
			check(os.WriteFile(filepath.Join(dir, k), v, 0o644))
		}
		for _, b := range d.Buffers { // directories of new files
			if b.URI != "" && !strings.Contains(b.URI, ":") {
				check(os.MkdirAll(filepath.Dir(filepath.Join(dir, fileName(b.URI))), 0o755))
			}
		}
		save := gltf.Save
		if bin {
			save = gltf.SaveBinary
		}
		name := filepath.Join(dir, "model")
		o, err = try(func() error { return save(d, name) })
		out, _ = os.ReadFile(name)
		os.Rename(name, name+".m")
		files = map[string][]byte{}
		root := filepath.Join(scratch, "c09")
		filepath.Walk(root, func(p string, i fs.FileInfo, err error) error {
			if err == nil && !i.IsDir() && p != name+".m" {
				rel, _ := filepath.Rel(dir, p)
				b, _ := os.ReadFile(p)
				files[rel] = b
			}
			return nil
		})
		ev["created"] = [][]int{}
	} else {
		var w bytes.Buffer
		o, err = try(func() error {
			e := gltf.NewEncoder(&w)
			if withFS {
				e = gltf.NewEncoderFS(&w, fsys)
			}
			e.AsBinary = bin
			return e.Encode(d)
		})
		out = w.Bytes()
		ev["created"] = rawNames(fsys.log, "create")
	}
	uris, chunk, hasBin := textBuffers(out)
	ev["out"], ev["err"], ev["texts"], ev["bin"], ev["hasBin"] = o, errText(err), uris, chunk, hasBin
	ev["files"], ev["opened"] = fileProj(files), rawNames(fsys.log, "open")
	emit(ev)
	if o != "ok" {
		return nil
	}
	// load
	got := new(gltf.Document)
	fsys.log = nil
	o, err = try(func() error {
		if real {
			var err error
			got, err = gltf.Open(filepath.Join(dir, "model.m"))
			return err
		}
		if withFS {
			return gltf.NewDecoderFS(bytes.NewReader(out), fsys).Decode(got)
		}
		return gltf.NewDecoder(bytes.NewReader(out)).Decode(got)
	})
	l := M{"op": "load", "out": o, "err": errText(err), "bufs": []M{}, "opened": rawNames(fsys.log, "open"), "created": rawNames(fsys.log, "create")}
	if o == "ok" {
		l["bufs"] = bufProj(got)
	}
	emit(l)
	if o != "ok" {
		return nil
	}
	return got
}

func rawNames(log []M, call string) [][]int {
	l := [][]int{}
	for _, e := range log {
		if e["call"] == call {
			l = append(l, e["raw"].([]int))
		}
	}
	return l
}

var storeNames = []string{"a.bin", "b.bin", "dir/c.bin", "with%20space.bin", "./d.bin", "sub/deeper/e.bin", "g+h~i.bin", "%C3%A9.bin", "j%2Fk.bin", "p%2Dq.bin", "..l.bin", "m/./n.bin", "win\\o.bin", "a=b&c.bin", "(1),.bin", "q?v=1", "q?v=2", "q#1", "q#2", "q", "a&b;c=d.bin", "(1)[2].bin", "k,l!m$n'o*.bin", "@at.bin"}

// fileName is the name that one of the benign URIs above denotes.
func fileName(uri string) string {
	uri = strings.ReplaceAll(uri, "\\", "/")
	uri = strings.ReplaceAll(strings.TrimPrefix(uri, "./"), "/./", "/")
	for _, p := range [][2]string{{"%20", " "}, {"%C3%A9", "é"}, {"%2F", "/"}, {"%2D", "-"}} {
		uri = strings.ReplaceAll(uri, p[0], p[1])
	}
	return uri
}

func storeAll(r *rand.Rand) {
	scenarios(func(line []byte) {
		var s storeScn
		check(json.Unmarshal(line, &s))
		begin()
		d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
		files := map[string][]byte{"x": {1}}
		for i, k := range s.Kinds {
			b := &gltf.Buffer{}
			if s.Full[i] {
				b.Data = randBytes(r, i+2)
			}
			b.ByteLength = i + 2
			switch k {
			case "embedded":
				b.URI = "data:application/octet-stream;base64,CQ=="
			case "file":
				b.URI = "f" + strconv.Itoa(i+1)
				files[b.URI] = randBytes(r, 6)
			case "url":
				b.URI = "http://h/x"
			}
			d.Buffers = append(d.Buffers, b)
		}
		storeLoad(d, s.Binary, s.Fs, false, files, r)
	})
	for i := tiers(250, 6000); i > 0; i-- {
		begin()
		d := lightDoc(r)
		files := map[string][]byte{}
		perm := r.Perm(len(storeNames))
		real := r.Intn(4) == 0
		for k := r.Intn(6); k > 0; k-- {
			n := r.Intn(20)
			if r.Intn(12) == 0 {
				n = 500 + r.Intn(100)
			}
			b := &gltf.Buffer{Name: randText(r, r.Intn(3)), Data: randBytes(r, n), ByteLength: n}
			if n == 0 || r.Intn(4) == 0 {
				b.ByteLength = 1 + r.Intn(n+3)
			}
			switch r.Intn(5) {
			case 0:
				b.EmbeddedResource()
				if r.Intn(3) == 0 { // the data was edited afterwards
					b.Data = append(b.Data, randBytes(r, 1+r.Intn(5))...)
					b.ByteLength = len(b.Data)
				}
			case 1, 2:
				b.URI = storeNames[perm[k]]
				if real && b.URI == "j%2Fk.bin" {
					b.URI = "jk.bin"
				}
				if len(b.Data) == 0 || r.Intn(3) == 0 {
					files[fileName(b.URI)] = randBytes(r, b.ByteLength+r.Intn(4))
				}
			case 3:
				if r.Intn(2) == 0 {
					b.URI = pick(r, "http://host/a.bin", "https://h/../b", "ftp://x/y%20z")
				}
			}
			d.Buffers = append(d.Buffers, b)
		}
		files["other"] = []byte{7, 7}
		bin := r.Intn(2) == 0
		got := storeLoad(d, bin, r.Intn(5) > 0, real, files, r)
		// a second generation, possibly in the other form and with changed data
		for gen := 0; gen < 2 && got != nil; gen++ {
			for _, b := range got.Buffers {
				if r.Intn(3) == 0 && len(b.Data) > 0 {
					b.Data = append(append([]byte(nil), b.Data...), randBytes(r, r.Intn(6))...)
					b.ByteLength = len(b.Data)
				}
				if r.Intn(9) == 0 && b.URI != "" && len(b.Data) > 0 {
					b.URI = ""
				}
			}
			if r.Intn(4) == 0 && len(got.Buffers) > 1 {
				got.Buffers[0], got.Buffers[1] = got.Buffers[1], got.Buffers[0]
			}
			before := map[string][]byte{"other": {7, 7}}
			for _, b := range got.Buffers {
				if b.URI != "" && !strings.Contains(b.URI, ":") && len(b.Data) == 0 {
					before[fileName(b.URI)] = randBytes(r, b.ByteLength)
				}
			}
			got = storeLoad(got, r.Intn(2) == 0, true, false, before, r)
		}
	}
}

// ---------------------------------------------------------------- C26

const octet = "data:application/octet-stream;base64"

// imageData asks for the data of an image.
func imageData(uri string) {
	im := &gltf.Image{URI: uri}
	var b []byte
	var emb bool
	o, err := try(func() (err error) { emb = im.IsEmbeddedResource(); b, err = im.MarshalData(); return })
	emit(M{"op": "image", "uri": ints([]byte(uri)), "embedded": emb, "data": ints(b), "out": o, "err": errText(err), "after": ints([]byte(im.URI))})
}

// bufferData decodes a document with a buffer with the URI.
func bufferData(uri string, n int) {
	d := new(gltf.Document)
	text := `{"asset":{"version":"2.0"},"buffers":[{"byteLength":` + strconv.Itoa(n) + `,"uri":` + jsonString(uri) + `}]}`
	f := &recFS{names: [][]int{}}
	var emb bool
	o, err := try(func() error {
		emb = (&gltf.Buffer{URI: uri}).IsEmbeddedResource()
		return gltf.NewDecoderFS(strings.NewReader(text), f).Decode(d)
	})
	m := M{"op": "buffer", "uri": ints([]byte(uri)), "blen": n, "embedded": emb, "data": []int{}, "out": o, "err": errText(err), "names": f.names}
	if o == "ok" && len(d.Buffers) == 1 {
		m["data"] = ints(d.Buffers[0].Data)
	}
	emit(m)
}

func dataURIs(r *rand.Rand) {
	embed := func(data []byte) {
		begin()
		b := &gltf.Buffer{Data: data, ByteLength: len(data)}
		o, err := try(func() error { b.EmbeddedResource(); return nil })
		emit(M{"op": "embed", "data": ints(data), "uri": ints([]byte(b.URI)), "embedded": b.IsEmbeddedResource(), "out": o, "err": errText(err), "after": ints(b.Data)})
		if len(data) > 0 {
			bufferData(b.URI, len(data))
			// through a document, without a URI of its own
			for _, k := range []int{0, 1} {
				var w bytes.Buffer
				d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
				if k == 1 {
					d.Buffers = append(d.Buffers, &gltf.Buffer{ByteLength: 2, Data: []byte{1, 2}})
				}
				d.Buffers = append(d.Buffers, &gltf.Buffer{ByteLength: len(data), Data: data})
				got := new(gltf.Document)
				o, err := try(func() error {
					e := gltf.NewEncoder(&w)
					e.AsBinary = k == 1
					if err := e.Encode(d); err != nil {
						return err
					}
					return gltf.NewDecoder(bytes.NewReader(w.Bytes())).Decode(got)
				})
				m := M{"op": "through", "data": ints(data), "got": []int{}, "uri": []int{}, "out": o, "err": errText(err)}
				if o == "ok" && len(got.Buffers) == k+1 {
					m["got"], m["uri"] = ints(got.Buffers[k].Data), ints([]byte(got.Buffers[k].URI))
				}
				emit(m)
			}
		}
	}
	for n := 0; n < tiers(70, 300); n++ {
		embed(randBytes(r, n))
		if n < 12 {
			embed(make([]byte, n))
			embed(bytes.Repeat([]byte{0xff}, n))
		}
	}
	for _, n := range []int{3000, 4096, 8193, 33000, 70001} {
		embed(randBytes(r, n+r.Intn(3)))
	}
	for v := 0; v < 256; v++ {
		embed([]byte{byte(v), byte(255 - v), byte(v * 7)}[:1+v%3])
	}
	b64 := func(b []byte) string {
		t := &gltf.Buffer{Data: b}
		t.EmbeddedResource()
		return strings.TrimPrefix(t.URI, octet+",")
	}
	for _, prefix := range []string{"data:image/png;base64", "data:image/jpeg;base64"} {
		for n := 0; n < tiers(40, 120); n++ {
			begin()
			imageData(prefix + "," + b64(randBytes(r, n)))
		}
	}
	// not data URIs, or of another kind
	begin()
	for _, u := range []string{"", "a.png", "data:", "data:,", "data:image/png", "data:image/gif;base64,AAAA", "data:image/png,AAAA", "data:image/webp;base64,AAAA", "data:application/gltf-buffer;base64,AAAA",
		"xdata:image/png;base64,AAAA", "http://x/data:image/png;base64,AAAA", " data:image/png;base64,AAAA", "data:application/octet-stream,AAAA", "data:text/plain;base64,AAAA", "image/png;base64,AAAA", octet + ",AAAA",
		"data:application/octet-stream;base6,AAAA", "data:image/jpg;base64,AAAA"} {
		imageData(u)
		if u != "" {
			bufferData(u, 3)
		}
	}
	for _, prefix := range []string{octet, "data:image/png;base64", "data:image/jpeg;base64"} {
		one := func(u string) {
			imageData(u)
			if u != "" {
				bufferData(u, 3)
			}
		}
		for _, payload := range []string{"", "AAAA", "AQID", "AQ==", "AQI=", "AR==", "AQ=", "AQ", "A", "=", "==", "====", "A===", "AQID=", "AQIDBA==", "AQ==AQ==", "AQI=AQID", "A Q=", "AQ\nID", "AQ-_", "!!!!", "AQID!", "é", "AQID\x00", "AQI%3D", "%41QID", "AQID,", ",AQID", "+/+/"} {
			begin()
			one(prefix + "," + payload)
			one(prefix + payload)
			one(prefix + ";" + payload)
			one(prefix + ";charset=x," + payload)
			one(prefix + " ," + payload)
			one(prefix[:len(prefix)-7] + ";charset=x;base64," + payload)
		}
		begin()
		full := prefix + ",AQIDBAU="
		for n := 0; n < len(full); n++ { // all prefixes
			one(full[:n])
		}
		for n := 0; n < len(full); n++ { // all single-character corruptions
			begin()
			for _, c := range []byte("!=A ,-_\n/%") {
				one(full[:n] + string(c) + full[n+1:])
				one(full[:n] + string(c) + full[n:])
			}
			one(full[:n] + full[n+1:])
		}
	}
}
