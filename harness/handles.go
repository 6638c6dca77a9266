package main

import (
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/qmuntal/gltf"
)

func init() { drivers["handles"] = handles }

type handleScn struct {
	What, Form string
	Plan       []string
}

// handleFS records what is done with every resource.
type handleFS struct {
	plan map[string]string
	data map[string][]byte
	n    int
	step int // bytes per read
}

func (f *handleFS) next() int { f.n++; return f.n }

func (f *handleFS) Open(name string) (fs.File, error) {
	switch k, ok := f.plan[name]; {
	case !ok || k == "missing":
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	case k == "open":
		return nil, nextFailure("use")
	}
	h := f.next()
	emit(M{"op": "open", "h": h, "name": ascii(name)})
	return &handleFile{f: f, h: h, kind: f.plan[name], data: f.data[name]}, nil
}

func (f *handleFS) Create(name string) (io.WriteCloser, error) {
	if f.plan[name] == "create" {
		return nil, nextFailure("use")
	}
	h := f.next()
	emit(M{"op": "open", "h": h, "name": ascii(name)})
	return &handleFile{f: f, h: h, kind: f.plan[name]}, nil
}

type handleFile struct {
	f    *handleFS
	h    int
	kind string
	data []byte
}

func (h *handleFile) use(how string) { emit(M{"op": "use", "h": h.h, "how": how}) }

func (h *handleFile) Stat() (fs.FileInfo, error) {
	h.use("stat")
	if h.kind == "stat" {
		return nil, nextFailure("use")
	}
	return memInfo{&memFile{name: "x", size: len(h.data)}}, nil
}

func (h *handleFile) Read(b []byte) (int, error) {
	h.use("read")
	if h.kind == "read" && len(h.data) <= 3 {
		return 0, nextReadFailure()
	}
	if len(h.data) == 0 {
		return 0, io.EOF
	}
	n := h.f.step
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], h.data)
	h.data = h.data[n:]
	return n, nil
}

func (h *handleFile) Write(b []byte) (int, error) {
	h.use("write")
	switch h.kind {
	case "write":
		return len(b) / 2, nextFailure("use")
	case "short":
		return len(b) / 2, nil
	}
	return len(b), nil
}

func (h *handleFile) Close() error {
	emit(M{"op": "close", "h": h.h})
	if h.kind == "close" {
		return nextFailure("use")
	}
	return nil
}

// ownStream is the caller's stream, which is not for the library to close.
type ownStream struct {
	io.Reader
	left int // writes until it fails; negative: never
}

func (o *ownStream) Close() error {
	emit(M{"op": "own", "how": "close"})
	return nil
}

func (o *ownStream) Write(b []byte) (int, error) {
	if o.left == 0 {
		return 0, nextFailure("write")
	}
	o.left--
	return len(b), nil
}

// leftOpen lists what this process has open below dir.
func leftOpen(dir string) []string {
	left := []string{}
	l, err := os.ReadDir("/proc/self/fd")
	check(err)
	for _, e := range l {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(t, dir+"/") {
			left = append(left, ascii(strings.TrimPrefix(t, dir)))
		}
	}
	return left
}

func handleCall(s handleScn, r *rand.Rand) {
	begin()
	note(s)
	f := &handleFS{plan: map[string]string{}, data: map[string][]byte{}, step: 1 + r.Intn(4)}
	d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	bin := strings.HasPrefix(s.Form, "binary") || s.Form != "text" && r.Intn(2) == 0
	if bin && (s.Form == "binary+" || s.Form == "cut" || s.Form == "full" && r.Intn(2) == 0) {
		d.Buffers = append(d.Buffers, &gltf.Buffer{ByteLength: 9, Data: randBytes(r, 9)})
	}
	dir := filepath.Join(scratch, "c28")
	check(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	main := filepath.Join(dir, "m.out")
	for k, p := range s.Plan {
		name := fmt.Sprintf("r%d.bin", k)
		b := &gltf.Buffer{URI: name, ByteLength: 1 + r.Intn(9)}
		b.Data = randBytes(r, b.ByteLength)
		f.plan[name], f.data[name] = p, randBytes(r, b.ByteLength+pick(r, 0, 0, 700))
		switch p {
		case "outside":
			b.URI = "../r.bin"
		case "length":
			b.ByteLength = 0
		case "empty":
			b.Data = nil
		case "directory":
			check(os.Mkdir(filepath.Join(dir, name), 0o755))
		case "missing":
			if s.What == "save" {
				b.URI = "none/" + name
			}
		case "full":
			check(os.Symlink("/dev/full", filepath.Join(dir, name)))
		case "ok":
			if s.What == "open" {
				check(os.WriteFile(filepath.Join(dir, name), f.data[name], 0o644))
			}
		}
		d.Buffers = append(d.Buffers, b)
	}
	if s.Form == "broken" && (s.What == "encode" || s.What == "save") {
		d.Extras = func() {}
	}
	var input []byte
	if s.What == "decode" || s.What == "open" { // the text of a document that may not be encoded
		var l []M
		for _, b := range d.Buffers {
			m := M{"byteLength": b.ByteLength}
			if b.URI != "" {
				m["uri"] = b.URI
			}
			l = append(l, m)
		}
		c := &container{text: bareText(r, l, false)}
		if len(d.Buffers) > 0 && d.Buffers[0].URI == "" {
			c.hasBin, c.bin = true, d.Buffers[0].Data
			c.bpad = (4 - len(c.bin)%4) % 4
		}
		if s.Form == "broken" {
			c.text[len(c.text)-1] = 'x'
		}
		c.jpad = (4 - len(c.text)%4) % 4
		input = c.text
		if bin {
			input = c.bytes()
		}
		if s.Form == "cut" {
			input = input[:len(input)-4]
		}
		if s.What == "open" && r.Intn(20) > 0 {
			check(os.WriteFile(main, input, 0o644))
		}
	}
	if s.What == "save" && s.Form == "full" {
		check(os.Symlink("/dev/full", main))
	}
	emit(M{"op": "call", "what": s.What, "form": s.Form, "plan": append([]string{}, s.Plan...)})
	o, err := try(func() error {
		switch s.What {
		case "decode":
			return gltf.NewDecoderFS(&ownStream{Reader: portions("random", input, 0, r)}, f).Decode(new(gltf.Document))
		case "encode":
			w := &ownStream{left: -1}
			if s.Form == "full" {
				w.left = r.Intn(5)
			}
			e := gltf.NewEncoderFS(w, f)
			e.AsBinary = bin
			return e.Encode(d)
		case "open":
			_, err := gltf.Open(main)
			return err
		}
		if bin {
			return gltf.SaveBinary(d, main)
		}
		return gltf.Save(d, main)
	})
	emit(M{"op": "return", "what": s.What, "out": o, "err": errText(err), "left": leftOpen(dir)})
}

func handles(r *rand.Rand) {
	debug.SetGCPercent(-1) // finalizers would close what is left open
	debug.SetMemoryLimit(4 << 30)
	scenarios(func(line []byte) {
		var s handleScn
		check(json.Unmarshal(line, &s))
		handleCall(s, r)
	})
	for i := tiers(300, 5000); i > 0; i-- {
		s := handleScn{What: pick(r, "decode", "encode", "open", "save"), Form: pick(r, "text", "binary", "binary+", "broken")}
		for k := 3 + r.Intn(4); k > 0; k-- {
			p := "ok"
			if r.Intn(5) == 0 {
				switch s.What {
				case "decode":
					p = pick(r, "missing", "open", "stat", "read", "close", "outside", "length")
				case "encode":
					p = pick(r, "create", "write", "short", "close", "outside", "empty")
				default:
					p = pick(r, "missing", "directory", "outside")
				}
			}
			s.Plan = append(s.Plan, p)
		}
		handleCall(s, r)
	}
}
