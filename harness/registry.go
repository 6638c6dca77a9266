package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/qmuntal/gltf"
)

func init() { drivers["registry"] = registry }

// regLog is the history of one session. Its names are its own, as registrations are for ever.
type regLog struct {
	id    int
	clock atomic.Int64
	last  atomic.Int64 // version
	mu    sync.Mutex
	regs  []M
	decs  []M
	calls map[int]regCall    // by place
	gate  map[int]*regDecode // decodings that stop in their handlers, by number
	quiet bool               // no clock, no log
}

type regCall struct{ v, at int }

// regValue is what the handlers of this driver return.
type regValue struct {
	V       int
	Payload []byte
	Inner   *gltf.TextureInfo
}

type regPayload struct {
	O int               // place
	D int               // decoding
	T *gltf.TextureInfo `json:",omitempty"`
}

var regSessions int

func newRegLog() *regLog {
	regSessions++
	return &regLog{id: regSessions*parts + part, calls: map[int]regCall{}, gate: map[int]*regDecode{}}
}

// name is the nth name of the session: different from the others, perhaps only a little.
func (h *regLog) name(n int) string {
	b := fmt.Sprintf("VERIF_%d_", h.id)
	switch h.id / parts % 8 {
	case 0: // letter case
		x := []byte("abcdefgh")
		for i := range x {
			if n>>i&1 == 1 {
				x[i] -= 'a' - 'A'
			}
		}
		return b + string(x)
	case 1:
		return b + strings.Repeat("x", n)
	case 2:
		return strings.Repeat("x", n) + b
	case 3:
		return b + strings.Repeat("long", 100) + string(rune('a'+n)) + strings.Repeat("long", 100)
	case 4:
		return b + []string{"", " ", ".", "/", "-", "_", "\t", "*"}[n%8] + strings.Repeat(" ", n/8)
	case 5:
		return b + []string{"é", "e\u0301", "è", "e", "É", "ſ", "s", "S"}[n%8] + strings.Repeat("x", n/8)
	}
	return b + fmt.Sprint(n)
}

func (h *regLog) tick() int { return int(h.clock.Add(1)) }

// register registers a new version of the handler of name n.
func (h *regLog) register(n int, refuse bool) {
	if h.quiet {
		gltf.RegisterExtension(h.name(n), func(b []byte) (any, error) {
			p := regPayload{}
			err := json.Unmarshal(b, &p)
			return &regValue{Inner: p.T}, err
		})
		return
	}
	v := int(h.last.Add(1))
	handler := func(b []byte) (any, error) {
		at := h.tick()
		b = append([]byte(nil), b...)
		var p struct{ O, D int }
		if err := json.Unmarshal(b, &p); err != nil {
			return nil, err
		}
		h.mu.Lock()
		h.calls[p.O] = regCall{v, at}
		g := h.gate[p.D]
		h.mu.Unlock()
		if g != nil {
			g.stop()
		}
		var q regPayload // nested extensions are decoded here
		if err := json.Unmarshal(b, &q); err != nil {
			return nil, err
		}
		if refuse {
			return nil, errors.New("refused")
		}
		return &regValue{v, b, q.T}, nil
	}
	b := h.tick()
	gltf.RegisterExtension(h.name(n), handler)
	e := h.tick()
	h.mu.Lock()
	h.regs = append(h.regs, M{"n": n, "v": v, "b": b, "e": e})
	h.mu.Unlock()
}

// regPlace is a place of a document that has an extension.
type regPlace struct {
	n, o    int
	payload string
	nested  *regPlace
	got     func(d *gltf.Document) gltf.Extensions
}

var regPlaces atomic.Int64

func (h *regLog) place(n, dec int, nested *regPlace) *regPlace {
	p := &regPlace{n: n, o: int(regPlaces.Add(1)), nested: nested}
	t := ""
	if nested != nil {
		t = fmt.Sprintf(`,"T":{"index":0,"extensions":{%q:%s}}`, h.name(nested.n), nested.payload)
	}
	p.payload = fmt.Sprintf(`{"O":%d,"D":%d%s}`, p.o, dec, t)
	return p
}

// regDoc is a document with extensions at several places.
type regDoc struct {
	text   string
	places []*regPlace
}

func (h *regLog) doc(places []*regPlace, shape int) regDoc {
	var nodes, mats []string
	var ext []string
	for i, p := range places {
		x := fmt.Sprintf(`%q:%s`, h.name(p.n), p.payload)
		switch {
		case shape == 0 && i == 0:
			ext = append(ext, x)
			p.got = func(d *gltf.Document) gltf.Extensions { return d.Extensions }
		case shape == 1:
			k := len(mats)
			mats = append(mats, fmt.Sprintf(`{"pbrMetallicRoughness":{"extensions":{%s}}}`, x))
			p.got = func(d *gltf.Document) gltf.Extensions { return d.Materials[k].PBRMetallicRoughness.Extensions }
		default:
			k := len(nodes)
			nodes = append(nodes, fmt.Sprintf(`{"extensions":{%s}}`, x))
			p.got = func(d *gltf.Document) gltf.Extensions { return d.Nodes[k].Extensions }
		}
	}
	t := fmt.Sprintf(`{"asset":{"version":"2.0"},"nodes":[%s],"materials":[%s],"extensions":{%s}}`, strings.Join(nodes, ","), strings.Join(mats, ","), strings.Join(ext, ","))
	return regDoc{t, places}
}

// decode decodes and records what was done with every extension.
func (h *regLog) decode(d regDoc) {
	doc := new(gltf.Document)
	if h.quiet {
		try(func() error { return gltf.NewDecoder(strings.NewReader(d.text)).Decode(doc) })
		return
	}
	b := h.tick()
	o, err := try(func() error { return gltf.NewDecoder(strings.NewReader(d.text)).Decode(doc) })
	e := h.tick()
	h.mu.Lock()
	defer h.mu.Unlock()
	seen := []M{}
	if o == "ok" {
		for _, p := range d.places {
			o2, _ := try(func() error {
				seen = append(seen, h.seen(p, p.got(doc), e)...)
				return nil
			})
			if o2 != "ok" {
				o = "incomplete"
			}
		}
	}
	h.decs = append(h.decs, M{"b": b, "e": e, "out": o, "err": errText(err), "seen": seen})
}

func (h *regLog) seen(p *regPlace, x gltf.Extensions, end int) (l []M) {
	m := M{"n": p.n, "v": 0, "at": end, "same": true}
	c, called := h.calls[p.o]
	var inner *gltf.TextureInfo
	switch v := x[h.name(p.n)].(type) {
	case *regValue:
		m["v"], m["same"], inner = v.V, jsonDigest(v.Payload) == jsonDigest([]byte(p.payload)), v.Inner
		if c.v == v.V {
			m["at"] = c.at
		}
	case json.RawMessage: // unknown or refused
		m["same"] = jsonDigest(v) == jsonDigest([]byte(p.payload))
		if called {
			m["v"], m["at"] = c.v, c.at
		}
	default:
		m["same"] = false
	}
	l = append(l, m)
	if p.nested != nil && inner != nil {
		l = append(l, h.seen(p.nested, inner.Extensions, end)...)
	}
	return l
}

func (h *regLog) finish() {
	begin()
	if h.regs == nil {
		h.regs = []M{}
	}
	if h.decs == nil {
		h.decs = []M{}
	}
	emit(M{"op": "history", "regs": h.regs, "decs": h.decs})
}

// ---------------------------------------------------------------- schedules

// regDecode is a decoding that stops in every handler.
type regDecode struct {
	arrived, proceed chan bool
	over             bool
}

func (g *regDecode) stop() {
	g.arrived <- true
	<-g.proceed
}

// step lets the decoding go on until it stops again or ends.
func (g *regDecode) step() {
	if g.over {
		return
	}
	g.proceed <- true
	g.over = !<-g.arrived
}

type regScn struct {
	Sched []struct {
		K, Doc string
		N      int
	}
}

func regSchedule(s regScn) {
	note(s)
	h := newRegLog()
	var run [3]*regDecode
	for _, st := range s.Sched {
		switch st.K {
		case "reg", "refuse":
			h.register(st.N, st.K == "refuse")
		case "start":
			var l []*regPlace
			switch st.Doc {
			case "one":
				l = append(l, h.place(1, st.N, nil))
			case "both":
				l = append(l, h.place(1, st.N, nil), h.place(2, st.N, nil))
			case "nested":
				l = append(l, h.place(1, st.N, h.place(2, st.N, nil)))
			case "twice":
				l = append(l, h.place(1, st.N, nil), h.place(1, st.N, nil), h.place(3, st.N, nil))
			}
			d := h.doc(l, st.N)
			g := &regDecode{arrived: make(chan bool), proceed: make(chan bool)}
			h.mu.Lock()
			h.gate[st.N] = g
			h.mu.Unlock()
			run[st.N] = g
			go func() {
				h.decode(d)
				g.arrived <- false
			}()
			g.over = !<-g.arrived
		case "step":
			run[st.N].step()
		}
	}
	for _, g := range run {
		for g != nil && !g.over {
			g.step()
		}
	}
	h.finish()
}

// ---------------------------------------------------------------- free runs

func regStress(r *rand.Rand, quiet bool) {
	h := newRegLog()
	h.quiet = quiet
	names := 1 + r.Intn(3)
	procs := 2 + r.Intn(6)
	ops := 4 + r.Intn(tiers(12, 25))
	note(M{"names": names, "procs": procs, "ops": ops})
	if r.Intn(2) == 0 {
		h.register(1, false)
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for p := 0; p < procs; p++ {
		wg.Add(1)
		go func(q *rand.Rand) {
			defer wg.Done()
			share := q.Intn(4)
			var docs []regDoc
			for i := 0; i < ops; i++ {
				var l []*regPlace
				for k := 1 + q.Intn(4); k > 0; k-- {
					var nested *regPlace
					if q.Intn(3) == 0 {
						nested = h.place(1+q.Intn(names+1), 0, nil)
					}
					l = append(l, h.place(1+q.Intn(names+1), 0, nested))
				}
				docs = append(docs, h.doc(l, q.Intn(3)))
			}
			<-start
			for i := range docs {
				if q.Intn(4) < share {
					h.register(1+q.Intn(names), q.Intn(6) == 0)
				} else {
					h.decode(docs[i])
				}
				if q.Intn(3) == 0 {
					runtime.Gosched()
				}
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	close(start)
	wg.Wait()
	if !quiet {
		h.finish()
	}
}

func registry(r *rand.Rand) {
	scenarios(func(line []byte) {
		var s regScn
		check(json.Unmarshal(line, &s))
		regSchedule(s)
	})
	for i := share(tiers(160, 20000)); i > 0; i-- {
		regStress(r, false)
	}
	for i := share(tiers(160, 4000)); i > 0; i-- {
		regStress(r, true)
	}
}
