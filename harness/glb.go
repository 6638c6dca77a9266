package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/qmuntal/gltf"
)

func init() {
	drivers["glb"] = func(r *rand.Rand) {
		switch scope {
		case "C04":
			glbWrite(r)
		case "C05":
			glbRead(r)
		case "C06":
			glbDamage(r)
		case "C07":
			glbFaults(r)
		}
	}
}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

func tiers(quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}

var glyphs = []string{"a", "b", "Z", "0", " ", "é", "ß", "日", "𝄞", "<", ">", "&", "\"", "\\", "/", "\n", "\t", "\u2028", "\x01", "}", "{", "]", ":"}

// what is mistaken for something else when texts are handled without parsing them
var snags = []string{`\u003c`, `\u003e`, `\u0026`, `\u2028`, `\n`, `\"`, `\\`, `\u0000`, `\`, `\/`, `",`, `":`, `,"scale":[1,1]`, `"offset":[0,0],`, `"rotation":0`, `"matrix":[]`,
	`{}`, `[]`, `,,`, `{,`, `,}`, `[,`, `null`, `:null`, `""`, `"extensions":{}`, `"mode":4`, `/*`, `//`, `%20`, `&lt;`, `&amp;`, "\u2029", "\u007f", "\u0085", "\ufeff", "\ufffd",
	"e\u0301", "\r\n", "\r", "\b\f", "\x00", "  ", "😀", "\U000e0001", "\u200d", "${x}", "%d", "%!s(MISSING)", "'", "`"}

func randText(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if r.Intn(12) == 0 {
			b.WriteString(snags[r.Intn(len(snags))])
			continue
		}
		b.WriteString(glyphs[r.Intn(len(glyphs))])
	}
	return b.String()
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	if n > 0 {
		switch r.Intn(24) {
		case 0: // nothing but zeros
			clear0(b)
		case 1: // zeros in front
			clear0(b[:1+r.Intn(n)])
		case 2: // and at the end
			clear0(b[r.Intn(n):])
		case 3:
			copy(b, pick(r, "glTF", "\xef\xbb\xbf", "\x89PNG\r\n\x1a\n", "\xff\xd8\xff", "{}", "\r\n", "data:", "AAAA", "BIN\x00", "\x1f\x8b", " \t"))
		case 4:
			for i := range b {
				b[i] = 0xff
			}
		}
	}
	return b
}

func clear0(b []byte) {
	for i := range b {
		b[i] = 0
	}
}

// lightDoc is a document with some objects of different length in JSON, without buffers.
func lightDoc(r *rand.Rand) *gltf.Document {
	d := &gltf.Document{Asset: gltf.Asset{Version: "2.0", Generator: randText(r, r.Intn(9))}}
	for i := r.Intn(4); i > 0; i-- {
		d.Nodes = append(d.Nodes, &gltf.Node{Name: randText(r, r.Intn(12)), Matrix: gltf.DefaultMatrix,
			Rotation: gltf.DefaultRotation, Scale: gltf.DefaultScale, Children: []int{}})
	}
	if r.Intn(2) == 0 {
		d.Scenes = []*gltf.Scene{{Name: randText(r, r.Intn(5)), Nodes: []int{0}}}
		d.Scene = gltf.Index(0)
	}
	if r.Intn(3) == 0 {
		d.Extras = map[string]any{"k": randText(r, r.Intn(9)), "n": 1.5}
	}
	return d
}

// jsonEnd is the length of the first JSON value in b, leading white space included; -1 if there is none.
func jsonEnd(b []byte) int {
	d := json.NewDecoder(bytes.NewReader(b))
	var v json.RawMessage
	if d.Decode(&v) != nil {
		return -1
	}
	return int(d.InputOffset())
}

// ---------------------------------------------------------------- memory file system

type memFS struct {
	files map[string][]byte
	log   []M
	fail  func(op, name string) (fault int) // see faultWriter
	fault *faultState
}

type memFile struct {
	*bytes.Reader
	name string
	size int
	fs   *memFS
	pos  int
	kind int
}

func (m *memFS) Open(name string) (fs.File, error) {
	m.log = append(m.log, M{"call": "open", "raw": ints([]byte(name))})
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	if m.fail != nil && m.fail("open", name) != 0 {
		return nil, nextFailure("open")
	}
	b, ok := m.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return &memFile{Reader: bytes.NewReader(b), name: name, size: len(b), fs: m, kind: int(atomic.AddInt32(&memOpened, 1)) % 6}, nil
}

// memOpened counts the files opened: some of them tell nothing about themselves, or are streams of unknown size.
var memOpened int32

func (f *memFile) Stat() (fs.FileInfo, error) {
	switch f.kind {
	case 1:
		return nil, &fs.PathError{Op: "stat", Path: f.name, Err: fs.ErrPermission}
	case 2:
		return streamInfo{memInfo{f}}, nil
	}
	return memInfo{f}, nil
}

// streamInfo describes a stream, e.g. a pipe.
type streamInfo struct{ memInfo }

func (streamInfo) Size() int64       { return 0 }
func (streamInfo) Mode() fs.FileMode { return 0o644 | fs.ModeNamedPipe }

func (f *memFile) Close() error { return nil }
func (f *memFile) Read(b []byte) (int, error) {
	if f.fs.fail != nil {
		if k := f.fs.fail("read", f.name); k != 0 {
			// fails after k-1 bytes
			if f.pos >= k-1 {
				return 0, nextReadFailure()
			}
			if len(b) > k-1-f.pos {
				b = b[:k-1-f.pos]
			}
		}
	}
	n, err := f.Reader.Read(b)
	f.pos += n
	return n, err
}

type memInfo struct{ f *memFile }

func (i memInfo) Name() string       { return filepath.Base(i.f.name) }
func (i memInfo) Size() int64        { return int64(i.f.size) }
func (i memInfo) Mode() fs.FileMode  { return 0o644 }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() any           { return nil }

type memWriter struct {
	m    *memFS
	name string
	fw   *faultWriter
}

func (w *memWriter) Write(b []byte) (int, error) {
	if w.fw != nil {
		return w.fw.Write(b)
	}
	w.m.files[w.name] = append(w.m.files[w.name], b...)
	return len(b), nil
}

func (w *memWriter) Close() error {
	if w.m.fault != nil {
		return w.m.fault.closed(w.name)
	}
	return nil
}

func (m *memFS) Create(name string) (io.WriteCloser, error) {
	m.log = append(m.log, M{"call": "create", "raw": ints([]byte(name))})
	w := &memWriter{m: m, name: name}
	if m.fault != nil {
		if err := m.fault.create(name); err != nil {
			return nil, err
		}
		w.fw = &faultWriter{st: m.fault, name: name, sink: func(b []byte) { m.files[name] = append(m.files[name], b...) }}
	}
	m.files[name] = nil
	return w, nil
}

// ---------------------------------------------------------------- C04

// glbEncode records one binary encoding.
func glbEncode(d *gltf.Document, via, prefix, indent string, r *rand.Rand) {
	begin()
	m := M{"op": "encode", "via": via, "nbuf": len(d.Buffers), "b0uri": "", "blen": 0, "data": []int{}}
	m["uris"] = len(d.Buffers) > 0 && d.Buffers[0].URI != ""
	if len(d.Buffers) > 0 {
		m["blen"], m["data"] = d.Buffers[0].ByteLength, ints(d.Buffers[0].Data)
	}
	var res []byte
	o, err := try(func() error {
		switch via {
		case "save":
			name := filepath.Join(scratch, "c04.glb")
			defer os.Remove(name)
			if r.Intn(2) == 0 { // an older, longer file is replaced
				check(os.WriteFile(name, randBytes(r, 20000), 0o644))
			}
			if err := gltf.SaveBinary(d, name); err != nil {
				return err
			}
			var err error
			res, err = os.ReadFile(name)
			return err
		case "encoder", "encoderfs":
			w, done := sink(r)
			e := gltf.NewEncoder(w)
			if via == "encoderfs" {
				e = gltf.NewEncoderFS(w, &memFS{files: map[string][]byte{}})
			}
			if prefix+indent != "" {
				e.SetJSONIndent(prefix, indent)
			}
			err := e.Encode(d)
			res = done()
			return err
		}
		return nil
	})
	m["out"], m["err"], m["bytes"] = o, errText(err), ints(res)
	end := -1
	if len(res) >= 20 {
		n := int(binary.LittleEndian.Uint32(res[12:]))
		if n >= 0 && n <= len(res)-20 {
			end = jsonEnd(res[20 : 20+n])
		}
	}
	m["jsonEnd"] = end
	m["jsonBuffers"] = -1
	if end >= 0 { // the text itself tells whether the first buffer has a URI
		var t struct {
			Buffers []struct{ Uri string }
		}
		if json.Unmarshal(res[20:20+end], &t) == nil {
			m["jsonBuffers"] = len(t.Buffers)
			m["jsonUri"] = len(t.Buffers) > 0 && t.Buffers[0].Uri != ""
		}
	}
	if m["jsonUri"] == nil {
		m["jsonUri"] = false
	}
	emit(m)
}

type glbScn struct {
	Name, Blen, Dlen, Nbuf int
	Kind                   string
}

func glbWrite(r *rand.Rand) {
	// enumerated by TLC: JSON length residue x declared length x data length x number of buffers
	scenarios(func(line []byte) {
		var s glbScn
		check(json.Unmarshal(line, &s))
		d := &gltf.Document{Asset: gltf.Asset{Version: "2.0", Generator: strings.Repeat("g", s.Name)}}
		for i := 0; i < s.Nbuf; i++ {
			b := &gltf.Buffer{ByteLength: s.Blen, Data: randBytes(r, s.Dlen)}
			if i > 0 {
				b.ByteLength = len(b.Data)
			}
			if i == 0 {
				switch s.Kind {
				case "uri":
					b.URI = "a.bin"
				case "embedded":
					b.EmbeddedResource()
				case "url":
					b.URI = "http://host/a.bin"
				}
			}
			d.Buffers = append(d.Buffers, b)
		}
		glbEncode(d, "encoder", "", "", r)
	})
	for i := tiers(150, 4000); i > 0; i-- {
		d := lightDoc(r)
		for k := r.Intn(4); k > 0; k-- {
			b := &gltf.Buffer{Name: randText(r, r.Intn(4)), Data: randBytes(r, r.Intn(40))}
			b.ByteLength = len(b.Data)
			switch r.Intn(5) {
			case 0:
				b.URI = "some/file.bin"
			case 1:
				b.EmbeddedResource()
			}
			if r.Intn(3) == 0 {
				b.ByteLength += r.Intn(9) - 4
				if b.ByteLength < 0 {
					b.ByteLength = 0
				}
			}
			d.Buffers = append(d.Buffers, b)
		}
		pi := pick(r, [2]string{"", ""}, [2]string{"", ""}, [2]string{"", "  "}, [2]string{" ", "\t"}, [2]string{"\n", ""})
		via := pick(r, "encoder", "encoder", "encoderfs", "save")
		if via == "save" {
			for _, b := range d.Buffers { // nothing else is written outside the scratch file
				if b.URI == "some/file.bin" {
					b.URI = "http://host/file.bin"
				}
			}
		}
		glbEncode(d, via, pi[0], pi[1], r)
	}
	for _, n := range []int{5000, 70001} {
		d := lightDoc(r)
		d.Asset.Copyright = randText(r, n/10)
		d.Buffers = []*gltf.Buffer{{ByteLength: n, Data: randBytes(r, n)}}
		glbEncode(d, "encoder", "", "", r)
	}
}

// ---------------------------------------------------------------- containers of our own making

type container struct {
	text       []byte // JSON text
	jpad       int
	hasBin     bool
	bin        []byte
	bpad       int
	extra      []byte // further chunks inside the container
	trail      []byte // after the container
	binGarbage bool   // padding of the binary chunk is not zero
}

func le32(n int) []byte {
	var b [4]byte
	binary.LittleEndian.PutUint32(b[:], uint32(n))
	return b[:]
}

func (c *container) bytes() []byte {
	var b bytes.Buffer
	total := 20 + len(c.text) + c.jpad + len(c.extra)
	if c.hasBin {
		total += 8 + len(c.bin) + c.bpad
	}
	b.WriteString("glTF")
	b.Write(le32(2))
	b.Write(le32(total))
	b.Write(le32(len(c.text) + c.jpad))
	b.WriteString("JSON")
	b.Write(c.text)
	b.Write(bytes.Repeat([]byte{' '}, c.jpad))
	if c.hasBin {
		b.Write(le32(len(c.bin) + c.bpad))
		b.WriteString("BIN\x00")
		b.Write(c.bin)
		pad := make([]byte, c.bpad)
		for i := range pad {
			if c.binGarbage {
				pad[i] = byte(i + 1)
			}
		}
		b.Write(pad)
	}
	b.Write(c.extra)
	b.Write(c.trail)
	return b.Bytes()
}

// bareText is the JSON text of a document, made without the library's encoder.
func bareText(r *rand.Rand, buffers []M, space bool) []byte {
	t := M{"asset": M{"version": "2.0", "generator": randText(r, r.Intn(6))}}
	if buffers != nil {
		t["buffers"] = buffers
	}
	if r.Intn(2) == 0 {
		t["nodes"] = []M{{"name": randText(r, r.Intn(30))}, {"translation": []float64{1, 2.5, -3}}}
		t["scenes"] = []M{{"nodes": []int{0, 1}}}
		t["scene"] = 0
	}
	if r.Intn(3) == 0 {
		t["extras"] = M{"x": []any{1, nil, "y"}, "z": randText(r, 3)}
	}
	if r.Intn(4) == 0 {
		t["extensionsUsed"] = []string{"EXT_some"}
		t["extensions"] = M{"EXT_some": M{"p": randText(r, 5)}}
	}
	b, err := json.Marshal(t)
	check(err)
	if space {
		var o bytes.Buffer
		json.Indent(&o, b, "", " ")
		b = o.Bytes()
	}
	return b
}

// ---------------------------------------------------------------- C05

// partReader delivers a byte sequence in portions.
type partReader struct {
	b    []byte
	next func(left int) int // size of the next portion
	eof  bool               // the last portion comes with EOF
	err  error              // instead of EOF
	pos  int
}

func (p *partReader) Read(b []byte) (int, error) {
	end := p.err
	if end == nil {
		end = io.EOF
	}
	if p.pos == len(p.b) {
		return 0, end
	}
	n := p.next(len(p.b) - p.pos)
	if n > len(b) {
		n = len(b)
	}
	if n > len(p.b)-p.pos {
		n = len(p.b) - p.pos
	}
	copy(b, p.b[p.pos:p.pos+n])
	p.pos += n
	if p.eof && p.pos == len(p.b) {
		return n, end
	}
	return n, nil
}

// sink is a writer of any kind, which may have been used before, and a function that returns what was written since.
func sink(r *rand.Rand) (io.Writer, func() []byte) {
	before := randBytes(r, r.Intn(7))
	since := func(b []byte) []byte {
		if !bytes.HasPrefix(b, before) {
			return []byte("what was there before is gone")
		}
		return append([]byte{}, b[len(before):]...)
	}
	switch r.Intn(6) {
	case 0:
		var b strings.Builder
		b.Write(before)
		return &b, func() []byte { return since([]byte(b.String())) }
	case 1:
		var b bytes.Buffer
		w := bufio.NewWriterSize(&b, pick(r, 16, 100, 5000))
		w.Write(before)
		return w, func() []byte { check(w.Flush()); return since(b.Bytes()) }
	case 2:
		name := filepath.Join(scratch, "sink")
		f, err := os.Create(name)
		check(err)
		f.Write(before)
		return f, func() []byte {
			check(f.Close())
			b, err := os.ReadFile(name)
			check(err)
			check(os.Remove(name))
			return since(b)
		}
	}
	var b bytes.Buffer
	b.Write(before)
	return &b, func() []byte { return since(b.Bytes()) }
}

// portions is the list of the ways to divide a stream.
func portions(kind string, b []byte, cut int, r *rand.Rand) io.Reader {
	p := &partReader{b: b}
	behind := func() []byte { return append([]byte("glTF what was read before"), b...) }
	const skip = 25
	switch kind {
	case "buffer":
		return bytes.NewBuffer(b)
	case "bytes": // read in part before
		rd := bytes.NewReader(behind())
		rd.Seek(skip, io.SeekStart)
		return rd
	case "strings":
		rd := strings.NewReader(string(behind()))
		rd.Seek(skip, io.SeekStart)
		return rd
	case "section":
		return io.NewSectionReader(bytes.NewReader(behind()), skip, int64(len(b)))
	case "limited":
		return io.LimitReader(bytes.NewReader(b), int64(len(b)))
	case "multi":
		cut = r.Intn(len(b) + 1)
		return io.MultiReader(bytes.NewReader(b[:cut]), bytes.NewReader(nil), strings.NewReader(string(b[cut:])))
	case "bufio": // of any size, and used before
		br := bufio.NewReaderSize(bytes.NewReader(behind()), pick(r, 16, 17, 32, 64, 5000))
		br.Discard(skip)
		if r.Intn(2) == 0 {
			br.Peek(r.Intn(16))
		}
		return br
	case "file":
		name := filepath.Join(scratch, "portions")
		check(os.WriteFile(name, behind(), 0o644))
		f, err := os.Open(name)
		check(err)
		check(os.Remove(name)) // it stays readable
		f.Seek(skip, io.SeekStart)
		if lastFile != nil {
			lastFile.Close()
		}
		lastFile = f
		return f
	case "whole":
		p.next = func(l int) int { return l }
	case "wholeEOF":
		p.next, p.eof = func(l int) int { return l }, true
	case "one":
		p.next = func(l int) int { return 1 }
	case "oneEOF":
		p.next, p.eof = func(l int) int { return 1 }, true
	case "random":
		p.next = func(l int) int { return 1 + r.Intn(1+r.Intn(64)) }
	case "sparse": // also portions without any byte
		p.next = func(l int) int { return r.Intn(3) }
	case "cut": // two portions
		p.next = func(l int) int {
			if p.pos < cut {
				return cut - p.pos
			}
			return l
		}
	case "4096":
		p.next = func(l int) int { return 4096 }
	}
	return p
}

var portionKinds = []string{"whole", "wholeEOF", "one", "oneEOF", "random", "sparse", "4096", "buffer", "bytes", "strings", "section", "limited", "multi", "bufio", "bufio", "file"}

// lastFile is open until the next one is needed.
var lastFile *os.File

var decodes int

// decodeDoc decodes and projects the result.
func decodeDoc(m M, rd io.Reader, fsys fs.FS) *gltf.Document {
	d := new(gltf.Document)
	decodes++
	o, err := try(func() error {
		if fsys == nil {
			return gltf.NewDecoder(rd).Decode(d)
		}
		if decodes%2 == 0 { // the same, in two steps
			dec := gltf.NewDecoder(rd)
			dec.Fsys = fsys
			return dec.Decode(d)
		}
		return gltf.NewDecoderFS(rd, fsys).Decode(d)
	})
	m["out"], m["err"] = o, errText(err)
	m["digest"], m["bufs"] = "", [][]int{}
	if o == "ok" {
		bufs := make([][]int, len(d.Buffers))
		for i, b := range d.Buffers {
			if b != nil {
				bufs[i] = ints(b.Data)
				b.Data = nil
			}
		}
		m["bufs"], m["digest"] = bufs, digest(d)
	}
	return d
}

// textDigest is the meaning of the JSON text alone.
func textDigest(text []byte) (string, error) {
	d := new(gltf.Document)
	if err := json.Unmarshal(text, d); err != nil {
		return "", err
	}
	return digest(d), nil
}

func glbRead(r *rand.Rand) {
	n := tiers(130, 1500)
	for i := 0; i < n; i++ {
		begin()
		c := &container{}
		files := map[string][]byte{}
		var buffers []M
		var want [][]int
		c.hasBin = r.Intn(4) > 0
		if c.hasBin {
			c.bin = randBytes(r, 1+r.Intn(12))
			if r.Intn(15) == 0 {
				c.bin = randBytes(r, 4000+r.Intn(600))
			}
			buffers = append(buffers, M{"byteLength": len(c.bin)})
			want = append(want, ints(c.bin))
		}
		if r.Intn(3) == 0 {
			f := randBytes(r, 1+r.Intn(9))
			files["e.bin"] = append(f, randBytes(r, r.Intn(3))...)
			buffers = append(buffers, M{"byteLength": len(f), "uri": "e.bin"})
			want = append(want, ints(f))
			if c.hasBin && r.Intn(3) == 0 && len(buffers) == 2 {
				// the first buffer is external: the binary chunk is nobody's
				buffers[0], buffers[1] = buffers[1], M{"byteLength": len(f), "uri": "e.bin"}
				want = [][]int{ints(f), ints(f)}
			}
		}
		if c.hasBin && r.Intn(8) == 0 { // a binary chunk that no buffer uses
			c.bin, buffers, want = c.bin[:r.Intn(2)*len(c.bin)], nil, nil
		}
		if want == nil {
			want = [][]int{}
		}
		c.text = bareText(r, buffers, r.Intn(3) == 0)
		if r.Intn(12) == 0 && buffers == nil {
			c.text = []byte(`{"asset":{"version":"2.0"}}`)
		}
		if i%9 == 4 { // large ones
			c.text = append([]byte(`{"materials":[{"name":"`+strings.Repeat("x", pick(r, 470, 980, 3900, 4050, 8100, 16300, 20000, 33000, 65500, 70000)+r.Intn(60))+`"}],`), c.text[1:]...)
		}
		base, err := textDigest(c.text)
		check(err)
		emit(M{"op": "source", "text": base, "want": want, "out": "ok"})
		min := (4 - len(c.text)%4) % 4
		bmin := (4 - len(c.bin)%4) % 4
		for k := tiers(6, 12); k > 0; k-- {
			c.jpad = min + 4*pick(r, 0, 0, 1, 2, 16, 127, 128, 300, 1100, 1200)
			c.bpad = bmin + 4*pick(r, 0, 0, 0, 1, 2, 25, 1030)
			c.binGarbage = r.Intn(4) == 0
			c.extra, c.trail = nil, nil
			if r.Intn(4) == 0 {
				p := randBytes(r, 4*r.Intn(4))
				c.extra = append(append(le32(len(p)), pick(r, "XTRA", "BIN\x00", "JSON", "\x00\x00\x00\x00")...), p...)
				if !c.hasBin {
					c.extra = append(append(le32(len(p)), "XTRA"...), p...)
				}
			}
			switch r.Intn(5) {
			case 0:
				c.trail = randBytes(r, 1+r.Intn(40))
			case 1:
				c.trail = []byte("glTF\x02\x00\x00\x00")
			case 2:
				c.trail = append(le32(4), "BIN\x00abcd"...)
			}
			b := c.bytes()
			kind := pick(r, portionKinds...)
			glbReadOne(b, kind, 0, "binary", c.jpad, len(c.trail), files, r)
		}
		// every single position as boundary of two portions, for small containers
		c.jpad, c.bpad, c.extra, c.trail = min+4*pick(r, 0, 1), bmin+4*pick(r, 0, 0, 1), nil, nil
		if b := c.bytes(); len(b) < 400 && i%4 == 0 {
			for cut := 1; cut < len(b); cut++ {
				if !thorough && cut > 24 && cut%7 != 0 && cut < len(b)-12 {
					continue
				}
				glbReadOne(b, "cut", cut, "binary", c.jpad, 0, files, r)
			}
		}
		// the same text alone (only when no buffer needs a container)
		if !c.hasBin || len(buffers) == 0 || buffers[0]["uri"] != nil {
			for k := 0; k < 3; k++ {
				t := append([]byte(pick(r, "", "", " ", "\n\t  ", "\r\n", strings.Repeat(" ", 30))), c.text...)
				tr := pick(r, "", "\n", "   \n\n", strings.Repeat(" ", 5000))
				glbReadOne(append(t, tr...), pick(r, portionKinds...), 0, "text", 0, len(tr), files, r)
			}
		}
	}
	// documents shorter than a container's header
	for _, t := range []string{`{}`, `{"asset":{}}`, ` {} `, `{"asset":{"a":1}}`, `{"scene":0}`, `{"extras":"glTF"}`} {
		begin()
		base, err := textDigest([]byte(t))
		check(err)
		emit(M{"op": "source", "text": base, "want": [][]int{}, "out": "ok"})
		for _, k := range portionKinds {
			glbReadOne([]byte(t), k, 0, "text", 0, 0, nil, r)
		}
		for p := 0; p < 4; p++ {
			c := &container{text: []byte(t), jpad: (4-len(t)%4)%4 + 4*p}
			glbReadOne(c.bytes(), pick(r, portionKinds...), 0, "binary", c.jpad, 0, nil, r)
		}
	}
}

func glbReadOne(b []byte, kind string, cut int, form string, jpad, trail int, files map[string][]byte, r *rand.Rand) {
	m := M{"op": "decode", "form": form, "portions": kind, "cut": cut, "jpad": jpad, "trail": trail, "size": len(b)}
	decodeDoc(m, portions(kind, b, cut, r), &memFS{files: files})
	emit(m)
}
