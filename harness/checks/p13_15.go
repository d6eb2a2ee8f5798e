package checks

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"reflect"

	"pgregory.net/rapid"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// histCase is a section, how it comes to be, and a sequence of looks at it.
type histCase struct {
	Data  ref.Hex      `json:"data,omitempty"` // decoded from this ...
	S     *ref.Section `json:"s,omitempty"`    // ... or built from this
	Dirty uint64       `json:"dirty,omitempty"`
	Via   string       `json:"via"`
	Ops   []int        `json:"ops"`
	// changes made before it is looked at
	Tweaks []tweak `json:"tweaks,omitempty"`
}

func (c *histCase) make() *scte35.SpliceInfoSection {
	sis := c.base()
	for _, w := range c.Tweaks {
		w.do(sis)
	}
	return sis
}

func (c *histCase) base() *scte35.SpliceInfoSection {
	switch c.Via {
	case "decode":
		sis, _ := decode(c.Data)
		return sis
	case "json", "xml":
		sis := api.Section(c.S)
		out := &scte35.SpliceInfoSection{}
		if c.Via == "json" {
			b, _ := json.Marshal(sis)
			_ = json.Unmarshal(b, out)
		} else {
			b, _ := xml.Marshal(sis)
			_ = xml.Unmarshal(b, out)
		}
		return out
	}
	sis := api.Section(c.S)
	dirty(sis, c.Dirty)
	return sis
}

func checkPure(c histCase, o *core.Obs) error {
	o.Label("section from " + c.Via)
	if len(c.Ops) > 1 {
		o.NonTrivial()
	}
	o.Evals(len(c.Ops))
	if len(c.Tweaks) > 0 {
		o.Label("changed by hand")
		if _, ok := tried(c.make()); !ok {
			return nil
		}
	}
	sis := c.make()
	before := dump(sis)
	for i, k := range c.Ops {
		ob := observers[k%len(observers)]
		want := ob.f(c.make()) // what it says of a section nothing else looked at
		got := ob.f(sis)
		if got != want {
			return fail("call %d, %s, differs from the same call on a fresh section:\n got %q\nwant %q", i, ob.name, got, want)
		}
		if after := dump(sis); after != before {
			return fail("call %d, %s, changed the section:\nbefore %s\nafter  %s", i, ob.name, before, after)
		}
		if again := ob.f(sis); again != got {
			return fail("call %d, %s, gives something else the second time:\n%q\n%q", i, ob.name, got, again)
		}
	}
	return nil
}

// loadCase is a sequence of loads into one section.
type loadCase struct {
	Loads []load `json:"loads"`
}

type load struct {
	Kind string  `json:"kind"` // decode, hex is not offered: it makes a new section
	Data ref.Hex `json:"data"`
	Edit bool    `json:"edit,omitempty"` // spoil the section afterwards
	Look bool    `json:"look,omitempty"` // look at it afterwards
}

func (l *load) do(sis *scte35.SpliceInfoSection) error {
	switch l.Kind {
	case "json":
		return json.Unmarshal(l.Data, sis)
	case "xml":
		return xml.Unmarshal(l.Data, sis)
	}
	return sis.Decode(append([]byte{}, l.Data...))
}

func genLoad(t *rapid.T) load {
	l := load{Edit: gen.P(t, 25), Look: gen.P(t, 25)}
	cfg := gen.Cfg{NoBulk: gen.P(t, 90), PreRoll: true, Encrypt: true}
	switch gen.N(t, 0, 3) {
	case 0, 1:
		l.Kind = "decode"
		cfg.WireUPID = true
		if gen.P(t, 35) {
			l.Data = anyBytes(t)
		} else {
			l.Data = gen.Section(t, cfg).Canonical()
		}
	default:
		l.Kind = []string{"json", "xml"}[gen.N(t, 0, 1)]
		cfg.Doc = true
		sis := api.Section(gen.Section(t, cfg))
		if l.Kind == "json" {
			l.Data, _ = json.Marshal(sis)
		} else {
			l.Data, _ = xml.Marshal(sis)
		}
		switch {
		case gen.P(t, 15) && len(l.Data) > 2: // not well-formed
			l.Data = l.Data[:gen.N(t, 1, len(l.Data)-1)]
		case gen.P(t, 30): // leave attributes or members out
			for k := gen.N(t, 1, 3); k > 0; k-- {
				l.Data = dropOne(t, l.Kind, l.Data)
			}
		}
	}
	return l
}

// dropOne removes one top-level attribute or member from a document.
func dropOne(t *rapid.T, kind string, doc []byte) []byte {
	if kind == "json" {
		var m map[string]json.RawMessage
		if json.Unmarshal(doc, &m) != nil {
			return doc
		}
		names := []string{"sapType", "tier", "ptsAdjustment", "protocolVersion", "preRollMilliSeconds", "encryptedPacket", "spliceDescriptors"}
		delete(m, names[gen.N(t, 0, len(names)-1)])
		out, _ := json.Marshal(m)
		return out
	}
	names := []string{" sapType=", " tier=", " ptsAdjustment=", " protocolVersion=", " preRollMilliSeconds="}
	n := []byte(names[gen.N(t, 0, len(names)-1)])
	i := bytes.Index(doc, n)
	if i < 0 {
		return doc
	}
	j := bytes.IndexByte(doc[i+len(n)+1:], '"')
	if j < 0 {
		return doc
	}
	return append(append([]byte{}, doc[:i]...), doc[i+len(n)+1+j+1:]...)
}

func checkReuse(c loadCase, o *core.Obs) error {
	sis := &scte35.SpliceInfoSection{}
	used := false
	for i, l := range c.Loads {
		fresh := &scte35.SpliceInfoSection{}
		e1, e2 := l.do(fresh), l.do(sis)
		if (e1 == nil) != (e2 == nil) || errClass(e1) != errClass(e2) {
			return fail("load %d (%s) into the used section: %v; into a fresh one: %v", i, l.Kind, e2, e1)
		}
		if l.Kind == "decode" {
			// the binary form does not carry the pre-roll
			sis.PreRollMilliSeconds, fresh.PreRollMilliSeconds = 0, 0
			o.LabelIf(e1 != nil, "failing decode into a used section")
		} else if e1 != nil {
			o.Label("failing document")
			continue
		}
		if used {
			o.NonTrivial()
			o.Label(l.Kind + " into a used section")
		}
		used = true
		if g, w := dump(sis), dump(fresh); g != w {
			return fail("load %d (%s): the used section differs from a fresh one:\n got %s\nwant %s", i, l.Kind, g, w)
		}
		if err := sameObservations(observe(sis), observe(fresh)); err != nil {
			return fail("load %d (%s): the used section differs from a fresh one: %v", i, l.Kind, err)
		}
		if l.Look {
			observe(sis)
		}
		if l.Edit {
			spoil(reflect.ValueOf(sis))
		}
	}
	return nil
}

// bufCase is a buffer and what is done with it.
type bufCase struct {
	Kind string  `json:"kind"`
	Data ref.Hex `json:"data"`
	XOR  byte    `json:"xor"`
	Grow bool    `json:"grow"`
}

func genBuf(t *rapid.T) bufCase {
	c := bufCase{Kind: []string{"decode", "decode", "json", "xml"}[gen.N(t, 0, 3)], XOR: byte(gen.N(t, 1, 255)), Grow: gen.B(t)}
	cfg := gen.Cfg{NoBulk: gen.P(t, 90), Doc: c.Kind != "decode", Encrypt: true, WireUPID: c.Kind == "decode"}
	s := gen.Section(t, cfg)
	switch c.Kind {
	case "decode":
		if gen.P(t, 20) {
			c.Data = anyBytes(t)
		} else {
			c.Data = s.Canonical()
		}
	case "json":
		c.Data, _ = json.Marshal(api.Section(s))
	default:
		c.Data, _ = xml.Marshal(api.Section(s))
	}
	return c
}

func checkIsolation(c bufCase, o *core.Obs) error {
	o.Label(c.Kind)
	o.NonTrivial()
	// a buffer with room behind it, to notice writes past the end as well
	room := append(append([]byte{}, c.Data...), bytes.Repeat([]byte{0xA5}, 64)...)
	orig := append([]byte{}, room...)
	buf := room[:len(c.Data)]
	load := func() *scte35.SpliceInfoSection {
		sis := &scte35.SpliceInfoSection{}
		switch c.Kind {
		case "json":
			_ = json.Unmarshal(buf, sis)
		case "xml":
			_ = xml.Unmarshal(buf, sis)
		default:
			_ = sis.Decode(buf)
		}
		return sis
	}
	a := load()
	twin := load()
	if !bytes.Equal(room, orig) {
		return fail("decoding wrote to the buffer: %x became %x", orig, room)
	}
	want, wantDump := observe(a), dump(a)
	if !bytes.Equal(room, orig) {
		return fail("looking at the section wrote to the buffer it came from")
	}
	// the caller reuses its buffer
	for i := range room {
		room[i] ^= c.XOR
	}
	if d := dump(a); d != wantDump {
		return fail("overwriting the buffer changed the section:\nbefore %s\nafter  %s", wantDump, d)
	}
	if err := sameObservations(observe(a), want); err != nil {
		return fail("overwriting the buffer changed the section: %v", err)
	}
	copy(room, orig)
	// buffers given out
	for k := 0; k < 2; k++ {
		e, err := a.Encode()
		if err == nil {
			for i := range e[:cap(e)] {
				e[:cap(e)][i] ^= c.XOR
			}
		}
		j, _ := json.Marshal(a)
		x, _ := xml.Marshal(a)
		for i := range j {
			j[i] ^= c.XOR
		}
		for i := range x {
			x[i] ^= c.XOR
		}
		if err := sameObservations(observe(a), want); err != nil {
			return fail("writing to an encoding that was given out changed the section: %v", err)
		}
	}
	// encodings kept while other things happen to the section
	type gift struct {
		name string
		now  []byte
		then string
	}
	var kept []gift
	keep := func(name string, b []byte, err error) {
		if err == nil {
			kept = append(kept, gift{name, b, string(b)})
		}
	}
	unchanged := func(what string) error {
		for _, g := range kept {
			if string(g.now) != g.then {
				return fail("%s changed an earlier result of %s:\nbefore %x\nafter  %x", what, g.name, g.then, g.now)
			}
		}
		return nil
	}
	for k := 0; k < 2; k++ {
		e, err := a.Encode()
		keep("Encode", e, err)
		e, err = json.Marshal(a)
		keep("the JSON marshaller", e, err)
		e, err = a.MarshalJSON()
		keep("MarshalJSON", e, err)
		e, err = xml.Marshal(a)
		keep("the XML marshaller", e, err)
	}
	observe(a)
	if err := unchanged("looking at the section"); err != nil {
		return err
	}
	// two sections from the same bytes
	spoil(reflect.ValueOf(a))
	if c.Grow {
		appendAll(reflect.ValueOf(a))
		spoil(reflect.ValueOf(a))
	}
	observe(a)
	if err := unchanged("editing and encoding the section"); err != nil {
		return err
	}
	if d := dump(twin); d != wantDump {
		return fail("editing one section changed another from the same bytes:\nbefore %s\nafter  %s", wantDump, d)
	}
	if err := sameObservations(observe(twin), want); err != nil {
		return fail("editing one section changed another from the same bytes: %v", err)
	}
	if !bytes.Equal(room, orig) {
		return fail("editing a section wrote to the buffer it came from")
	}
	if c.Kind == "decode" {
		_ = a.Decode(append([]byte{}, orig[:len(c.Data)]...))
		observe(a)
	}
	if err := unchanged("encoding other sections"); err != nil {
		return err
	}
	if err := sameObservations(observe(load()), want); err != nil {
		return fail("editing a section changed what the same bytes decode to: %v", err)
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID: "P13",
		Rule: "a section - decoded from sound or damaged bytes, built by hand (some with leftovers in switched-off fields), or read from a document - " +
			"is looked at by a drawn sequence of observers (encodings, table, documents, duration, names, flags), each result compared with the " +
			"same call on a fresh equal section, the public fields dumped after every call; non-trivial: two or more calls",
		Subs: []*core.Sub{
			core.New("histories", 128000, 1280000, func(t *rapid.T) histCase {
				c := histCase{Via: []string{"decode", "decode", "built", "built", "json", "xml"}[gen.N(t, 0, 5)]}
				switch c.Via {
				case "decode":
					if gen.P(t, 40) {
						c.Data = anyBytes(t)
					} else {
						c.Data = gen.Section(t, gen.Cfg{Encrypt: true, WireUPID: true, NoBulk: true}).Canonical()
					}
				default:
					c.S = gen.Section(t, gen.Cfg{Encrypt: true, NoBulk: true, PreRoll: true, Doc: c.Via != "built"})
					if c.Via == "built" {
						c.Dirty = drawLeft(t, 30)
					}
				}
				if gen.P(t, 25) {
					for n := gen.N(t, 1, 3); n > 0; n-- {
						c.Tweaks = append(c.Tweaks, genTweak(t))
					}
				}
				for n := gen.N(t, 1, 8); n > 0; n-- {
					c.Ops = append(c.Ops, gen.N(t, 0, len(observers)-1))
				}
				return c
			}, checkPure),
		},
	})
	core.Register(&core.Prop{
		ID: "P14",
		Rule: "sequences of 2 to 6 loads - signals (sound and damaged), JSON and XML documents (complete, with attributes left out, cut) - go into one " +
			"section, with looks and edits between; after every decode and every successful document the section is compared with a fresh one given " +
			"the same, fields and observers; non-trivial: a load into a used section was compared",
		Assumptions: []string{"the pre-roll after a binary decode and content after a failed document are not judged"},
		Subs: []*core.Sub{
			core.New("histories", 48000, 600000, func(t *rapid.T) loadCase {
				c := loadCase{}
				for n := gen.N(t, 2, 6); n > 0; n-- {
					c.Loads = append(c.Loads, genLoad(t))
				}
				return c
			}, checkReuse),
		},
	})
	core.Register(&core.Prop{
		ID:    "P15",
		Boost: 3,
		Rule: "bytes or a document are loaded from a buffer that is then overwritten, encodings given out are overwritten, and one of two sections from " +
			"the same bytes is edited in every public field and list; nothing else may change; every case is non-trivial",
		Subs: []*core.Sub{
			core.New("buffers", 60000, 1000000, genBuf, checkIsolation),
		},
	})
}

var _ = fmt.Sprint
