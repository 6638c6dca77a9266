package main

import (
	"bytes"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/qmuntal/gltf"
)

// faultState decides which call of a session fails, and records them all.
type faultState struct {
	log    []M
	kind   string // of the fault, see faultWriter.Write
	at     int    // number of the call (from 1) or, for kind "full", bytes that fit; 0: never
	always bool   // all calls from that on
	calls  int
	room   int
	watch  func() // called at every call
	err    error  // what failing calls report
}

func (s *faultState) seen() {
	if s.watch != nil {
		s.watch()
	}
}

func (s *faultState) failure() error {
	if s.err == nil {
		s.err = nextFailure("write")
	}
	return s.err
}

func (s *faultState) hit() bool {
	s.calls++
	return s.at > 0 && (s.calls == s.at || s.always && s.calls > s.at)
}

func (s *faultState) create(name string) error {
	s.seen()
	bad := s.kind != "full" && s.hit()
	s.log = append(s.log, M{"call": "create", "name": ascii(name), "n": 0, "got": 0, "bad": bad})
	if bad {
		return s.failure()
	}
	return nil
}

func (s *faultState) closed(name string) error {
	s.seen()
	bad := s.kind != "full" && s.hit()
	s.log = append(s.log, M{"call": "close", "name": ascii(name), "n": 0, "got": 0, "bad": bad})
	if bad {
		return s.failure()
	}
	return nil
}

type faultWriter struct {
	st   *faultState
	name string
	sink func([]byte)
}

func (w *faultWriter) Write(b []byte) (int, error) {
	s := w.st
	s.seen()
	got, err := len(b), error(nil)
	bad := false
	if s.kind == "full" { // no room after that many bytes
		if len(b) > s.room {
			got, err, bad = s.room, s.failure(), true
		}
		s.room -= got
	} else if s.hit() {
		bad = true
		switch s.kind {
		case "none":
			got, err = 0, s.failure()
		case "part":
			got, err = len(b)/2, s.failure()
		case "all":
			err = s.failure()
		case "short":
			got = len(b) - 1
		case "shortHalf":
			got = len(b) / 2
		case "zero":
			got = 0
		}
		if got < 0 {
			got = 0
		}
		if err == nil && got == len(b) {
			bad = false // nothing was refused
		}
	}
	w.sink(b[:got])
	s.log = append(s.log, M{"call": "write", "name": ascii(w.name), "n": len(b), "got": got, "bad": bad})
	return got, err
}

func faultDoc(r *rand.Rand) *gltf.Document {
	d := lightDoc(r)
	names := []string{"a.bin", "b.bin", "dir/c.bin", "d.bin"}
	for k := r.Intn(5); k > 0; k-- {
		b := &gltf.Buffer{Data: randBytes(r, 1+r.Intn(12))}
		b.ByteLength = len(b.Data)
		switch r.Intn(4) {
		case 0, 1:
			b.URI = names[len(d.Buffers)%4]
		case 2:
			b.EmbeddedResource()
		}
		d.Buffers = append(d.Buffers, b)
	}
	return d
}

// faultRun encodes with one fault and records the calls and the result.
func faultRun(d *gltf.Document, binary bool, indent string, st *faultState, op string) *faultState {
	fsys := &memFS{files: map[string][]byte{}, fault: st}
	var main bytes.Buffer
	st.room = st.at
	o, err := try(func() error {
		e := gltf.NewEncoderFS(&faultWriter{st: st, name: "", sink: func(b []byte) { main.Write(b) }}, fsys)
		e.AsBinary = binary
		if indent != "" {
			e.SetJSONIndent("", indent)
		}
		return e.Encode(d)
	})
	files := M{"none": []int{}}
	for k, v := range fsys.files {
		files["f_"+k] = ints(v)
	}
	log := st.log
	if log == nil {
		log = []M{}
	}
	emit(M{"op": op, "kind": st.kind, "at": st.at, "always": st.always, "binary": binary, "log": log,
		"out": o, "err": errText(err), "main": ints(main.Bytes()), "files": files})
	return st
}

// faultLarge encodes large documents: the traces have digests of what arrives.
func faultLarge(r *rand.Rand) {
	for i := 0; i < tiers(16, 120); i++ {
		d := lightDoc(r)
		size := func() int {
			return pick(r, 511, 1025, 4096, 4097, 8193, 32768, 32769, 65537, 70001, 131073) + r.Intn(3)
		}
		for k := 1 + r.Intn(2); k > 0; k-- {
			b := &gltf.Buffer{Data: randBytes(r, size())}
			b.ByteLength = len(b.Data)
			if k > 1 || i%2 == 0 {
				b.URI = pick(r, "a.bin", "dir/b.bin") + pick(r, "", ".0") + string(rune('0'+k))
			}
			d.Buffers = append(d.Buffers, b)
		}
		if i%4 == 3 {
			d.Asset.Copyright = strings.Repeat("c", size())
		}
		binary := i%3 > 0
		begin()
		want := map[string][]byte{}
		for _, b := range d.Buffers {
			if b.URI != "" {
				want[b.URI] = b.Data
			}
		}
		emit(M{"op": "files", "files": filesDigest(want), "out": "ok"})
		run := func(op string, st *faultState) *faultState {
			fsys := &memFS{files: map[string][]byte{}, fault: st}
			var main bytes.Buffer
			st.room = st.at
			o, err := try(func() error {
				e := gltf.NewEncoderFS(&faultWriter{st: st, sink: func(b []byte) { main.Write(b) }}, fsys)
				e.AsBinary = binary
				return e.Encode(d)
			})
			log := st.log
			if log == nil {
				log = []M{}
			}
			emit(M{"op": op, "kind": st.kind, "at": st.at, "always": st.always, "binary": binary, "log": log, "out": o, "err": errText(err),
				"main": digestOf(main.String()), "files": filesDigest(fsys.files)})
			return st
		}
		base := run("healthy", &faultState{kind: "none"})
		total := 0
		for _, c := range base.log {
			total += c["n"].(int)
		}
		for at := 1; at <= base.calls; at++ {
			if base.calls > 40 && !thorough && at > 8 && at < base.calls-8 && r.Intn(base.calls) > 20 {
				continue
			}
			for _, kind := range []string{"none", "part", "all", "short", "shortHalf", "zero"} {
				run("fault", &faultState{kind: kind, at: at, always: r.Intn(2) == 0})
			}
		}
		for k := 0; k < 12; k++ {
			at := 1 + r.Intn(total-1)
			if k < 4 {
				at = total - 1 - k*k
			}
			run("fault", &faultState{kind: "full", at: at})
		}
	}
}

func glbFaults(r *rand.Rand) {
	faultLarge(r)
	for i := tiers(25, 250); i > 0; i-- {
		d := faultDoc(r)
		binary := i%2 == 0
		indent := pick(r, "", "", " ")
		begin()
		want := M{"none": []int{}}
		first := 0
		if binary && len(d.Buffers) > 0 && d.Buffers[0].URI == "" {
			first = 1
		}
		for _, b := range d.Buffers[first:] {
			if b.URI != "" && !b.IsEmbeddedResource() && len(b.Data) > 0 {
				want["f_"+b.URI] = ints(b.Data)
			}
		}
		emit(M{"op": "files", "files": want, "out": "ok"})
		base := faultRun(d, binary, indent, &faultState{kind: "none"}, "healthy")
		calls, size := base.calls, 0
		for _, c := range base.log {
			size += c["n"].(int)
		}
		for at := 1; at <= calls; at++ {
			for _, kind := range []string{"none", "part", "all", "short", "shortHalf", "zero"} {
				for _, always := range []bool{false, true} {
					faultRun(d, binary, indent, &faultState{kind: kind, at: at, always: always}, "fault")
				}
			}
		}
		step := 1
		if size > 120 && !thorough {
			step = size / 120
		}
		for at := 1; at < size; at += step {
			faultRun(d, binary, indent, &faultState{kind: "full", at: at}, "fault")
		}
	}
	faultFiles(r)
}

// faultFiles saves to destinations of the real file system that fail.
func faultFiles(r *rand.Rand) {
	full := func(d *gltf.Document, name string, binary bool) {
		for _, b := range d.Buffers {
			if b.URI != "" && !b.IsEmbeddedResource() {
				b.URI = name + ".bin"
			}
		}
	}
	for i := 0; i < tiers(20, 200); i++ {
		begin()
		d := faultDoc(r)
		d.Buffers = append(d.Buffers, &gltf.Buffer{URI: "x", ByteLength: 3, Data: []byte{1, 2, 3}})
		full(d, "ext", false)
		binary := i%2 == 0
		save := gltf.Save
		if binary {
			save = gltf.SaveBinary
		}
		dir := filepath.Join(scratch, "c07")
		check(os.MkdirAll(dir, 0o755))
		for _, kind := range []string{"healthy", "no directory", "is directory", "device full", "external no directory", "external is directory", "external device full"} {
			target := filepath.Join(dir, "m.gltf")
			must := true
			for _, b := range d.Buffers {
				if b.URI == "nodir/ext.bin" {
					b.URI = "ext.bin"
				}
			}
			switch kind {
			case "healthy":
				must = false
			case "no directory":
				target = filepath.Join(dir, "nodir", "m.gltf")
			case "is directory":
				check(os.Mkdir(target, 0o755))
			case "device full":
				check(os.Symlink("/dev/full", target))
			case "external no directory":
				for _, b := range d.Buffers {
					if b.URI == "ext.bin" {
						b.URI = "nodir/ext.bin"
					}
				}
			case "external is directory":
				check(os.Mkdir(filepath.Join(dir, "ext.bin"), 0o755))
			case "external device full":
				check(os.Symlink("/dev/full", filepath.Join(dir, "ext.bin")))
			}
			o, err := try(func() error { return save(d, target) })
			emit(M{"op": "save", "kind": kind, "binary": binary, "must": must, "out": o, "err": errText(err)})
			os.RemoveAll(dir)
			check(os.MkdirAll(dir, 0o755))
		}
		os.RemoveAll(dir)
	}
	_ = io.EOF
}
