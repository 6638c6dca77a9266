package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/qmuntal/gltf"
)

// Handlers that return all kinds of values, or refuse, at any places of a document.

type delivered struct {
	ID   int
	Note string
	X    any
}

// deliveryKinds are the values that handlers return.
var deliveryKinds = []struct {
	name   string
	refuse bool
	value  func(b []byte, p *delivered) (any, error)
}{
	{"pointer", false, func(b []byte, p *delivered) (any, error) { return p, nil }},
	{"struct", false, func(b []byte, p *delivered) (any, error) { return *p, nil }},
	{"nil", false, func(b []byte, p *delivered) (any, error) { return nil, nil }},
	{"nil pointer", false, func(b []byte, p *delivered) (any, error) { return (*delivered)(nil), nil }},
	{"text", false, func(b []byte, p *delivered) (any, error) { return p.Note, nil }},
	{"empty text", false, func(b []byte, p *delivered) (any, error) { return "", nil }},
	{"zero", false, func(b []byte, p *delivered) (any, error) { return 0, nil }},
	{"false", false, func(b []byte, p *delivered) (any, error) { return false, nil }},
	{"list", false, func(b []byte, p *delivered) (any, error) { return []int{p.ID}, nil }},
	{"nil list", false, func(b []byte, p *delivered) (any, error) { return []int(nil), nil }},
	{"map", false, func(b []byte, p *delivered) (any, error) { return map[string]int{"id": p.ID}, nil }},
	{"empty map", false, func(b []byte, p *delivered) (any, error) { return map[string]int{}, nil }},
	{"raw", false, func(b []byte, p *delivered) (any, error) {
		return json.RawMessage(append([]byte(nil), b...)), nil
	}},
	{"other raw", false, func(b []byte, p *delivered) (any, error) { return json.RawMessage(`{"other":true}`), nil }},
	{"extensions", false, func(b []byte, p *delivered) (any, error) {
		return gltf.Extensions{"a": json.RawMessage(`1`)}, nil
	}},
	{"refuse", true, func(b []byte, p *delivered) (any, error) { return nil, errors.New("refused") }},
	{"refuse with a value", true, func(b []byte, p *delivered) (any, error) { return p, errors.New("refused") }},
	{"refuse with a nil pointer", true, func(b []byte, p *delivered) (any, error) {
		return (*delivered)(nil), fmt.Errorf("refused: %w", errors.New("it"))
	}},
	{"refuse as JSON does", true, func(b []byte, p *delivered) (any, error) {
		var s string
		return s, json.Unmarshal([]byte(`{"a"`), &s)
	}},
}

// extensionPlaces finds the extensions of all objects of a document, in order, with the name
// of the type that has them.
func extensionPlaces(v reflect.Value, visit func(t string, x reflect.Value)) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			extensionPlaces(v.Elem(), visit)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Pointer {
			for i := 0; i < v.Len(); i++ {
				extensionPlaces(v.Index(i), visit)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			switch f := v.Field(i); {
			case f.Type() == reflect.TypeOf(gltf.Extensions{}):
				visit(v.Type().Name(), f)
			case v.Type().Field(i).IsExported():
				extensionPlaces(f, visit)
			}
		}
	}
}

// textPayloads are the payloads of the extensions of the given names anywhere in a text.
func textPayloads(v any, names []string, got *[]string) {
	switch v := v.(type) {
	case map[string]any:
		for k, x := range v {
			if m, ok := x.(map[string]any); ok && k == "extensions" {
				for _, n := range names {
					if p, ok := m[n]; ok {
						b, _ := json.Marshal(p)
						*got = append(*got, n[len(n)-1:]+jsonDigest(b))
					}
				}
			}
			textPayloads(x, names, got)
		}
	case []any:
		for _, x := range v {
			textPayloads(x, names, got)
		}
	}
}

func valueDigest(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "?"
	}
	return digestOf(fmt.Sprintf("%T|%s", v, b))
}

var deliveries int

func deliverySession(r *rand.Rand) {
	begin()
	deliveries++
	names := []string{fmt.Sprintf("VERIF_deliver_%d_%d_a", part, deliveries), fmt.Sprintf("VERIF_deliver_%d_%d_u", part, deliveries),
		fmt.Sprintf("VERIF_deliver_%d_%d_b", part, deliveries)}
	type place struct {
		t, name          string
		object           int // among those with extensions
		raw              []byte
		kind, calls      int
		heard, ret, text string
	}
	var places []*place
	handler := func(b []byte) (any, error) {
		b = append([]byte(nil), b...)
		var p delivered
		if err := json.Unmarshal(b, &p); err != nil {
			return nil, err
		}
		pl := places[p.ID]
		v, err := deliveryKinds[pl.kind].value(b, &p)
		pl.calls++
		pl.heard, pl.ret = jsonDigest(b), valueDigest(v)
		if t, err := json.Marshal(v); err == nil {
			pl.text = jsonDigest(t)
		}
		return v, err
	}
	gltf.RegisterExtension(names[0], handler)
	gltf.RegisterExtension(names[2], handler)
	d := randDoc(r)
	for _, b := range d.Buffers { // resources are not the matter here
		b.URI, b.ByteLength, b.Data = "http://h/x", 1, nil
	}
	share := pick(r, 0.2, 0.6, 1)
	objects := 0
	extensionPlaces(reflect.ValueOf(d), func(t string, x reflect.Value) {
		m := gltf.Extensions{}
		for _, n := range names {
			if r.Float64() > share || len(places) > 30 {
				continue
			}
			p := &place{t: t, name: n, object: objects, kind: r.Intn(len(deliveryKinds))}
			x := M{"ID": len(places), "Note": pick(r, "", "a", "extensions", `"`), "X": randAny(r, 1), "extra": randAny(r, 2)}
			if r.Intn(15) == 0 { // a large one
				x["list"] = make([]any, pick(r, 300, 2000, 20000))
				x["text"] = longText(pick(r, 10, 5000, 70000), r)
			}
			p.raw, _ = json.Marshal(x)
			if r.Intn(3) == 0 {
				p.raw = bytes.ReplaceAll(p.raw, []byte("null"), []byte(" null\n"))
			}
			places = append(places, p)
			m[n] = json.RawMessage(p.raw)
		}
		if len(m) > 0 {
			objects++
		}
		x.Set(reflect.ValueOf(m))
	})
	encode := func(d *gltf.Document) ([]byte, string, error) {
		var buf bytes.Buffer
		e := gltf.NewEncoder(&buf)
		e.AsBinary = r.Intn(2) == 0
		o, err := try(func() error { return e.Encode(d) })
		return buf.Bytes(), o, err
	}
	in, o, _ := encode(d)
	if o != "ok" {
		return
	}
	note(M{"delivery": string(in)})
	got := new(gltf.Document)
	o, err := try(func() error { return gltf.NewDecoder(bytes.NewReader(in)).Decode(got) })
	ev := M{"op": "deliver", "out": o, "err": errText(err), "out2": "none"}
	l, texts, objs := []M{}, []string{}, []M{}
	if o == "ok" {
		var xs []gltf.Extensions
		var ts []string
		extensionPlaces(reflect.ValueOf(got), func(t string, x reflect.Value) {
			if m := x.Interface().(gltf.Extensions); len(m) > 0 {
				xs, ts = append(xs, m), append(ts, t)
				objs = append(objs, M{"t": t, "n": len(m)})
			}
		})
		for _, p := range places {
			m := M{"t": p.t, "o": p.object + 1, "name": p.name[len(p.name)-1:], "known": p.name != names[1], "refuse": deliveryKinds[p.kind].refuse, "kind": deliveryKinds[p.kind].name,
				"calls": p.calls, "heard": p.heard, "ret": p.ret, "text": p.text, "raw": jsonDigest(p.raw), "there": false, "got": "", "gotRaw": ""}
			if p.object < len(xs) {
				v, ok := xs[p.object][p.name]
				m["there"], m["got"] = ok, valueDigest(v)
				if b, ok := v.(json.RawMessage); ok {
					m["gotRaw"] = jsonDigest(b)
				}
			}
			l = append(l, m)
		}
		out, o, err := encode(got)
		ev["out2"], ev["err"] = o, errText(err)
		var x any
		if o == "ok" {
			dec := json.NewDecoder(bytes.NewReader(chunkText(out)))
			dec.UseNumber()
			if dec.Decode(&x) == nil {
				textPayloads(x, names, &texts)
			}
		}
	}
	ev["places"], ev["objs"], ev["texts"] = l, objs, texts
	emit(ev)
}
