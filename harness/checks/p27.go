package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// odd is a change to one place of a section that need not make sense.
type odd struct {
	Kind int     `json:"kind"`
	At   int     `json:"at"`
	How  int     `json:"how"`
	Num  uint64  `json:"num"`
	Text ref.Hex `json:"text,omitempty"`
}

func genOdd(t *rapid.T) odd {
	w := odd{Kind: gen.N(t, 0, 1<<16), At: gen.N(t, 0, 1<<16), How: gen.N(t, 0, 59)}
	switch gen.N(t, 0, 3) {
	case 0:
		w.Num = gen.U(t, 64)
	case 1:
		w.Num = uint64(gen.N(t, 0, 300))
	case 2:
		w.Num = 1<<gen.N(t, 0, 63) - 1 + uint64(gen.N(t, 0, 2))
	default:
		w.Num = ^uint64(0) - uint64(gen.N(t, 0, 9))
	}
	switch gen.N(t, 0, 5) {
	case 0:
	case 1:
		w.Text = gen.Bytes(t, 0, 300)
	case 2:
		w.Text = gen.Printable(t, 0, 40)
	case 3:
		for n := gen.N(t, 1, 12); n > 0; n-- {
			w.Text = append(w.Text, pick(t, []string{"-", "/", ":", "|", "0x", "10.5", "5237", "0", "F", "f", "urn:", ".", "é", "\xff", "\x00", " ", "\n", "ID", "<", "&", "]]>", "\u2028", "\ufffe"})...)
		}
	case 4:
		w.Text = bytes.Repeat([]byte(pick(t, []string{"0", "A", "é", "-", "\xff", "F/"})), gen.N(t, 1, 600))
	default:
		w.Text = gen.Text(t, 0, 20)
	}
	return w
}

var zeroCommands = []func() scte35.SpliceCommand{
	func() scte35.SpliceCommand { return &scte35.SpliceNull{} },
	func() scte35.SpliceCommand { return &scte35.SpliceSchedule{} },
	func() scte35.SpliceCommand { return &scte35.SpliceInsert{} },
	func() scte35.SpliceCommand { return &scte35.TimeSignal{} },
	func() scte35.SpliceCommand { return &scte35.BandwidthReservation{} },
	func() scte35.SpliceCommand { return &scte35.PrivateCommand{} },
}

var zeroDescriptors = []func() scte35.SpliceDescriptor{
	func() scte35.SpliceDescriptor { return &scte35.AvailDescriptor{} },
	func() scte35.SpliceDescriptor { return &scte35.DTMFDescriptor{} },
	func() scte35.SpliceDescriptor { return &scte35.SegmentationDescriptor{} },
	func() scte35.SpliceDescriptor { return &scte35.TimeDescriptor{} },
	func() scte35.SpliceDescriptor { return &scte35.AudioDescriptor{} },
	func() scte35.SpliceDescriptor { return &scte35.PrivateDescriptor{} },
}

// do makes the change and tells where.
func (w odd) do(sis *scte35.SpliceInfoSection) string {
	if w.How%12 == 0 && w.Kind%12 == 0 {
		sis.SpliceCommand = nil
		return "command nil"
	}
	if w.How%12 == 0 {
		sis.SpliceCommand = zeroCommands[w.Num%uint64(len(zeroCommands))]()
		return "command zero " + reflect.TypeOf(sis.SpliceCommand).Elem().Name()
	}
	if w.How%12 == 1 {
		d := zeroDescriptors[w.Num%uint64(len(zeroDescriptors))]()
		sis.SpliceDescriptors = append(sis.SpliceDescriptors, d)
		return "descriptor zero " + reflect.TypeOf(d).Elem().Name()
	}
	p := tweak{Kind: w.Kind, At: w.At}.find(places(sis))
	v := p.v
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Uint8, reflect.Uint32, reflect.Uint64:
		v.SetUint(w.Num & (1<<v.Type().Bits() - 1))
	case reflect.String:
		v.SetString(string(w.Text))
	case reflect.Struct: // time
		switch w.How % 3 {
		case 0:
			v.SetZero()
		case 1:
			v.Set(reflect.ValueOf(time.Unix(int64(w.Num>>24), 0)))
		default:
			v.Set(reflect.ValueOf(time.Date(int(w.Num%20000)-5000, 1, 1, 0, 0, 0, int(w.Num%1000000007%1000000000), time.UTC)))
		}
	case reflect.Pointer:
		if !v.IsNil() {
			v.SetZero()
		} else {
			v.Set(reflect.New(v.Type().Elem()))
		}
	case reflect.Slice:
		switch {
		case w.How%4 == 0:
			v.SetZero()
		case v.Type().Elem().Kind() == reflect.Uint8:
			v.SetBytes(w.Text)
		case v.Type().Elem().Kind() == reflect.Interface:
			for n := w.Num % 40; n > 0 && v.Len() > 0; n-- {
				v.Set(reflect.Append(v, v.Index(0)))
			}
		default:
			e := reflect.Zero(v.Type().Elem())
			if v.Len() > 0 && w.How%4 == 1 {
				e = v.Index(v.Len() - 1)
			}
			for n := w.Num % 320; n > 0; n-- {
				v.Set(reflect.Append(v, e))
			}
		}
	}
	return indexes.ReplaceAllString(p.path, "[]")
}

// oddCase is a section with changes that need not make sense.
type oddCase struct {
	H    histCase `json:"h"`
	Odds []odd    `json:"odds"`
}

func genOddCase(t *rapid.T) oddCase {
	c := oddCase{H: genLeaf(t).H}
	for n := gen.N(t, 1, 6); n > 0; n-- {
		c.Odds = append(c.Odds, genOdd(t))
	}
	return c
}

// guarded calls f and gives its panic, if any.
func guarded(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func checkOdd(c oddCase, o *core.Obs) error {
	sis := c.H.make()
	o.Label("section from " + c.H.Via)
	for _, w := range c.Odds {
		o.Label("changed " + w.do(sis))
	}
	o.NonTrivial()
	var bin []byte
	var err error
	for _, ob := range observers {
		if p := guarded(func() { ob.f(sis) }); p != nil {
			return fail("%s panics: %v\n%s", ob.name, p, dump(sis))
		}
	}
	for i := -1; i < len(sis.SpliceDescriptors); i++ {
		var part any = sis.SpliceCommand
		if i >= 0 {
			part = sis.SpliceDescriptors[i]
		}
		if p := guarded(func() { _, _ = json.Marshal(part); _, _ = xml.Marshal(part) }); p != nil {
			return fail("marshalling %T panics: %v\n%s", part, p, dump(sis))
		}
	}
	bin, err = sis.Encode()
	o.LabelIf(err != nil, "Encode reports an error")
	if err != nil {
		if sis.Base64() != "" || sis.Hex() != "" {
			return fail("Encode fails with %v, yet Base64 or Hex give %q, %q", err, sis.Base64(), sis.Hex())
		}
	} else if sis.SpliceCommand != nil {
		if len(bin) < 15 || bin[0] != 0xFC || !bytes.Equal(bin, ref.FixCRC(bin)) {
			return fail("Encode gives something without a valid CRC_32: %x\n%s", bin, dump(sis))
		}
		if n := int(bin[1]&15)<<8 | int(bin[2]); n != (len(bin)-3)&0xFFF {
			return fail("section_length %d in a section of %d bytes: %x\n%s", n, len(bin), bin, dump(sis))
		}
		if sis.Base64() != base64.StdEncoding.EncodeToString(bin) || !strings.EqualFold(sis.Hex(), hex.EncodeToString(bin)) {
			return fail("Base64 %q or Hex %q is not Encode's %x", sis.Base64(), sis.Hex(), bin)
		}
		if p := guarded(func() { _, _ = decode(bin) }); p != nil {
			return fail("decoding its own encoding panics: %v\n%x", p, bin)
		}
	}
	for _, k := range []string{"json", "xml"} {
		var doc []byte
		back := &scte35.SpliceInfoSection{}
		if k == "json" {
			doc, err = json.Marshal(sis)
		} else {
			doc, err = xml.Marshal(sis)
		}
		if err != nil {
			o.Label(k + " refuses")
			continue
		}
		if k == "json" {
			if !json.Valid(doc) {
				return fail("not JSON: %q", doc)
			}
		} else if err := wellFormedXML(doc); err != nil {
			return fail("XML is not well-formed: %v\n%s", err, doc)
		}
		if p := guarded(func() {
			if k == "json" {
				err = json.Unmarshal(doc, back)
			} else {
				err = xml.Unmarshal(doc, back)
			}
		}); p != nil {
			return fail("loading its own %s panics: %v\n%s", k, p, doc)
		}
		if err != nil {
			return fail("its own %s cannot be loaded: %v\n%s", k, err, doc)
		}
		if err := kept(k, sis, back); err != nil {
			return fail("%v\n%s", err, doc)
		}
		for _, ob := range observers {
			if p := guarded(func() { ob.f(back) }); p != nil {
				return fail("%s panics after a round trip through %s: %v\n%s", ob.name, k, p, doc)
			}
		}
	}
	return nil
}

// kept tells whether a section that went through a document still has all it
// had, whether or not that makes sense. Texts that the document form has no
// characters for, and a command there is none of, are passed over.
func kept(k string, sis, back *scte35.SpliceInfoSection) error {
	if sis.SpliceCommand == nil {
		return nil
	}
	if k == "json" {
		for _, d := range sis.SpliceDescriptors {
			// the tag and identifier tell what a descriptor is in JSON
			if p, ok := d.(*scte35.PrivateDescriptor); ok && p.Identifier == ref.CUEI {
				return nil
			}
		}
	}
	was, is := places(sis), places(back)
	if len(was) != len(is) {
		return fmt.Errorf("through %s\n%s\nhas become\n%s", k, dump(sis), dump(back))
	}
	for i, p := range was {
		q := is[i]
		if p.v.Kind() == reflect.String && !carried(k, p.v.String()) {
			continue
		}
		if p.path != q.path || p.show() != q.show() {
			return fmt.Errorf("%s was %s and is %s %s through %s", p.path, p.show(), q.path, q.show(), k)
		}
	}
	return nil
}

// carried tells whether a document can hold a text.
func carried(k, s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	if k == "json" {
		return true
	}
	for _, r := range s {
		if r < ' ' || r > 0xFFFD {
			return false
		}
	}
	return strings.TrimSpace(s) == s
}

func wellFormedXML(doc []byte) error {
	d := xml.NewDecoder(bytes.NewReader(doc))
	for {
		_, err := d.Token()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}

func init() {
	core.Register(&core.Prop{
		ID: "P27",
		Rule: "sections that were decoded, loaded or built, with values put into their public fields that need not make sense, are encoded, tabulated, marshalled " +
			"and asked everything else; non-trivial: a value was changed",
		Subs: []*core.Sub{
			core.New("anything", 24000, 480000, genOddCase, checkOdd),
		},
	})
}
