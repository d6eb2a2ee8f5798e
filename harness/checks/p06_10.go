package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"

	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// docCase is a section that goes through a document.
type docCase struct {
	S       *ref.Section `json:"s"`
	Decoded bool         `json:"decoded,omitempty"` // from binary, not built
	Form    int          `json:"form,omitempty"`    // how the document is written and read
	Next    *ref.Section `json:"next,omitempty"`    // another section in the same document
	Zone    int          `json:"zone,omitempty"`    // local zone, minutes east
}

func genZone(t *rapid.T) int {
	if gen.P(t, 60) {
		return 0
	}
	return []int{60, -480, 330, 840, -720, 345, summerZone}[gen.N(t, 0, 6)]
}

// summerZone stands for the zone the checks run in, which has summer time.
const summerZone = 1

// inZone runs f with another local time zone.
func inZone(minutes int, f func() error) error {
	old := time.Local
	time.Local = time.UTC
	switch minutes {
	case 0:
	case summerZone:
		time.Local = core.Zone
	default:
		time.Local = time.FixedZone("local", minutes*60)
	}
	defer func() { time.Local = old }()
	return f()
}

// docText makes the text of a section fit a document: ASCII in DTMF and ISO
// codes; for XML, no control characters but white space inside.
func docText(t *rapid.T, s *ref.Section, xmlText bool) {
	ascii := func(b []byte) {
		for i := range b {
			b[i] &= 0x7F
			if xmlText && (b[i] < 0x20 || b[i] == 0x7F) {
				b[i] |= 0x40
			}
		}
	}
	for i := range s.Descs {
		d := &s.Descs[i]
		switch d.Kind {
		case ref.DTMF:
			ascii(d.Chars)
		case ref.Audio:
			for k := range d.Chans {
				ascii(d.Chans[k].ISO)
			}
		case ref.Seg:
			if !xmlText {
				break
			}
			for k := range d.S.UPIDs {
				u := &d.S.UPIDs[k]
				if u.Decoded().Format != "text" || u.Type == 0x0A || u.Type == 0x08 {
					continue
				}
				for j, c := range u.Raw {
					edge := j == 0 || j == len(u.Raw)-1
					if c < 0x20 && (edge || c != '\t' && c != '\n' && c != '\r') {
						u.Raw[j] = c + 0x40
					} else if edge && c == ' ' {
						u.Raw[j] = '_'
					}
				}
			}
		}
	}
}

// statedFormats gives UPIDs another format than decoding would, which only
// sections made by hand have.
func statedFormats(t *rapid.T, s *ref.Section) {
	if gen.P(t, 60) {
		return
	}
	for i := range s.Descs {
		if s.Descs[i].Kind != ref.Seg {
			continue
		}
		for k := range s.Descs[i].S.UPIDs {
			u := &s.Descs[i].S.UPIDs[k]
			l := []string{""}
			if u.Decoded().Format == "text" {
				l = []string{"", "", "private:acme", "text"}
			}
			f := pick(t, l)
			u.Fmt = &f
		}
	}
}

func stated[C any](g func(*rapid.T) C, of func(*C) *ref.Section) func(*rapid.T) C {
	return func(t *rapid.T) C {
		c := g(t)
		statedFormats(t, of(&c))
		return c
	}
}

func genDoc(xmlText bool) func(*rapid.T) docCase {
	return func(t *rapid.T) docCase {
		c := gen.Cfg{Encrypt: true, PreRoll: true, NoStuff: true, NoBulk: gen.P(t, 70)}
		k := docCase{S: gen.Section(t, c), Decoded: gen.P(t, 40), Form: gen.N(t, 0, 3), Zone: genZone(t)}
		docText(t, k.S, xmlText)
		if gen.P(t, 10) {
			k.Form = 4 + gen.N(t, 0, 1)
			k.Next = gen.Section(t, gen.Cfg{Encrypt: true, PreRoll: true, NoStuff: true, NoBulk: true})
			docText(t, k.Next, xmlText)
		}
		if !k.Decoded {
			statedFormats(t, k.S)
		}
		return k
	}
}

// start makes the section of a case.
func (c *docCase) start() (*scte35.SpliceInfoSection, error) {
	if !c.Decoded {
		return api.Section(c.S), nil
	}
	b := c.S.Canonical()
	sis, err := decode(b)
	if err != nil && c.S.EncAlg == 0 {
		return nil, fail("rejected: %v\n%x", err, b)
	}
	if err != nil {
		return api.Section(c.S), nil
	}
	sis.PreRollMilliSeconds = c.S.PreRoll
	return sis, nil
}

// equal tells whether a section read from a document is the one described.
func equalDoc(sis *scte35.SpliceInfoSection, s *ref.Section) error {
	if err := api.Cmp(sis, s); err != nil {
		return err
	}
	if sis.PreRollMilliSeconds != s.PreRoll {
		return fail("pre-roll is %d, want %d", sis.PreRollMilliSeconds, s.PreRoll)
	}
	for i, d := range sis.SpliceDescriptors {
		want := map[string]string{ref.Avail: "*scte35.AvailDescriptor", ref.DTMF: "*scte35.DTMFDescriptor", ref.Seg: "*scte35.SegmentationDescriptor",
			ref.Time: "*scte35.TimeDescriptor", ref.Audio: "*scte35.AudioDescriptor", ref.Private: "*scte35.PrivateDescriptor"}[s.Descs[i].Kind]
		if g := fmt.Sprintf("%T", d); g != want {
			return fail("descriptor %d is a %s, want %s", i, g, want)
		}
	}
	if err := api.SwitchedOff(sis); err != nil {
		return err
	}
	b, err := sis.Encode()
	if err != nil {
		return fail("encode: %v", err)
	}
	plain := *s
	plain.Stuff = nil
	return sameBytes(b, plain.Canonical(), s.EncAlg != 0)
}

func docRoundTrip(kind string) func(docCase, *core.Obs) error {
	return func(c docCase, o *core.Obs) error {
		classify(c.S, o)
		if rich(c.S) {
			o.NonTrivial()
		}
		o.LabelIf(c.S.PreRoll != 0, "pre-roll")
		return inZone(c.Zone, func() error {
			sis, err := c.start()
			if err != nil {
				return err
			}
			if c.Next != nil {
				return severalDocs(kind, c, sis)
			}
			before := dump(sis)
			var doc []byte
			switch {
			case kind == "xml" && c.Form == 0:
				doc, err = xml.Marshal(sis)
			case kind == "xml" && c.Form == 1:
				doc, err = xml.MarshalIndent(sis, "", "\t")
			case kind == "xml" && c.Form == 2:
				var buf bytes.Buffer
				buf.WriteString(xml.Header)
				e := xml.NewEncoder(&buf)
				e.Indent(" ", "  ")
				err = e.Encode(sis)
				doc = buf.Bytes()
			case kind == "xml":
				doc, err = xml.Marshal(struct {
					XMLName xml.Name `xml:"list"`
					S       []*scte35.SpliceInfoSection
				}{S: []*scte35.SpliceInfoSection{sis, sis}})
			case c.Form == 0:
				doc, err = json.Marshal(sis)
			case c.Form == 1:
				doc, err = json.MarshalIndent(sis, "", "\t")
			case c.Form == 2:
				var buf bytes.Buffer
				e := json.NewEncoder(&buf)
				e.SetEscapeHTML(false)
				e.SetIndent("", " ")
				err = e.Encode(sis)
				doc = buf.Bytes()
			default:
				doc, err = json.Marshal(map[string]any{"list": []*scte35.SpliceInfoSection{sis, sis}})
			}
			if err != nil {
				return fail("marshal: %v", err)
			}
			var got []*scte35.SpliceInfoSection
			if c.Form == 3 {
				if kind == "xml" {
					l := struct {
						S []*scte35.SpliceInfoSection `xml:"SpliceInfoSection"`
					}{}
					err = xml.Unmarshal(doc, &l)
					got = l.S
				} else {
					l := struct{ List []*scte35.SpliceInfoSection }{}
					err = json.Unmarshal(doc, &l)
					got = l.List
				}
				if err == nil && len(got) != 2 {
					return fail("%d sections read from\n%s", len(got), doc)
				}
			} else {
				s := &scte35.SpliceInfoSection{}
				if kind == "xml" {
					err = xml.Unmarshal(doc, s)
				} else {
					err = json.Unmarshal(doc, s)
				}
				got = append(got, s)
			}
			if err != nil {
				return fail("unmarshal: %v\n%s", err, doc)
			}
			for _, g := range got {
				if err := equalDoc(g, c.S); err != nil {
					return fail("%v\n%s", err, doc)
				}
				if d := dump(g); d != before {
					return fail("the section is not the one written:\nbefore %s\nafter  %s\n%s", before, d, doc)
				}
			}
			return nil
		})
	}
}

// severalDocs sends a section, another and the first again through one
// document or one stream of documents.
func severalDocs(kind string, c docCase, sis *scte35.SpliceInfoSection) error {
	next := api.Section(c.Next)
	in := []*scte35.SpliceInfoSection{sis, next, sis}
	want := []*ref.Section{c.S, c.Next, c.S}
	type list struct {
		XMLName  xml.Name                   `xml:"list" json:"-"`
		From     string                     `xml:"from" json:"from"`
		One      *scte35.SpliceInfoSection  `xml:"one>SpliceInfoSection" json:"one"`
		Sections []scte35.SpliceInfoSection `xml:"SpliceInfoSection" json:"sections"`
		To       string                     `xml:"to" json:"to"`
		Absent   *scte35.SpliceInfoSection  `xml:"absent>SpliceInfoSection" json:"absent,omitempty"`
		Number   uint32                     `xml:"number,attr" json:"number"`
	}
	var got []*scte35.SpliceInfoSection
	var buf bytes.Buffer
	if c.Form == 4 { // a stream
		je, xe := json.NewEncoder(&buf), xml.NewEncoder(&buf)
		for i, s := range in {
			var err error
			if kind == "json" {
				err = je.Encode(s)
			} else {
				err = xe.Encode(s)
			}
			if err != nil {
				return fail("marshal section %d: %v", i, err)
			}
		}
		r := bytes.NewReader(buf.Bytes())
		jd, xd := json.NewDecoder(r), xml.NewDecoder(r)
		for i := 0; ; i++ {
			s := &scte35.SpliceInfoSection{}
			var err error
			if kind == "json" {
				err = jd.Decode(s)
			} else {
				err = xd.Decode(s)
			}
			if err == io.EOF && i == len(in) {
				break
			}
			if err != nil {
				return fail("document %d of the stream: %v\n%s", i, err, buf.Bytes())
			}
			got = append(got, s)
			if i == len(in) {
				return fail("more documents read than written\n%s", buf.Bytes())
			}
		}
	} else { // parts of one document
		l := list{From: "here", One: sis, Sections: []scte35.SpliceInfoSection{*next, *sis}, To: "there", Number: 7}
		var back list
		doc, err := []byte(nil), error(nil)
		if kind == "json" {
			if doc, err = json.Marshal(&l); err == nil {
				err = json.Unmarshal(doc, &back)
			}
		} else {
			if doc, err = xml.Marshal(&l); err == nil {
				err = xml.Unmarshal(doc, &back)
			}
		}
		if err != nil {
			return fail("as part of a document: %v\n%s", err, doc)
		}
		if back.From != l.From || back.To != l.To || back.Number != l.Number || back.Absent != nil || len(back.Sections) != 2 || back.One == nil {
			return fail("the rest of the document is not read as written: %+v\n%s", back, doc)
		}
		got = []*scte35.SpliceInfoSection{back.One, &back.Sections[0], &back.Sections[1]}
		buf.Write(doc)
	}
	for i, g := range got {
		if err := equalDoc(g, want[i]); err != nil {
			return fail("section %d: %v\n%s", i, err, buf.Bytes())
		}
		if d, w := dump(g), dump(in[i]); d != w {
			return fail("section %d is not the one written:\nbefore %s\nafter  %s\n%s", i, w, d, buf.Bytes())
		}
	}
	return nil
}

// ---- P08 and P09

type xdocCase struct {
	S      *ref.Section `json:"s"`
	St     xstyle       `json:"style"`
	Schema bool         `json:"schema,omitempty"` // private parts and FullSrvcAudio as the schema has them
	Zone   int          `json:"zone,omitempty"`
}

func genXDoc(t *rapid.T) xdocCase {
	c := xdocCase{S: gen.Section(t, gen.Cfg{Doc: true, Encrypt: true, PreRoll: true, NoStuff: true, NoBulk: gen.P(t, 80)}), St: genStyle(t), Zone: genZone(t)}
	if gen.P(t, 30) {
		c.S.SAP = 3
	}
	return c
}

func checkXMLWrite(c xdocCase, o *core.Obs) error {
	classify(c.S, o)
	if rich(c.S) {
		o.NonTrivial()
	}
	return inZone(c.Zone, func() error {
		for _, indent := range []string{"", "\t"} {
			doc, err := xml.MarshalIndent(api.Section(c.S), "", indent)
			if err != nil {
				return fail("marshal: %v", err)
			}
			x, err := readXML(doc)
			if err != nil {
				return fail("not well-formed: %v\n%s", err, doc)
			}
			if err := cmpXML(x, c.S.XML(c.Schema), ""); err != nil {
				return fail("%v\n%s", err, doc)
			}
		}
		return nil
	})
}

func checkXMLRead(c xdocCase, o *core.Obs) error {
	classify(c.S, o)
	if rich(c.S) {
		o.NonTrivial()
	}
	for n, b := range map[string]bool{"prefix": c.St.Prefix != "", "mixed prefixes": c.St.Mixed, "white space": c.St.Space, "comments": c.St.Comments,
		"1 and 0": c.St.Bool01, "character references": c.St.CharRef, "CDATA": c.St.CDATA, "Ext": c.St.Ext, "defaults left out": c.St.Drop,
		"shuffled attributes": c.St.Shuffle, "zones": c.St.Zone, "foreign attributes": c.St.Foreign, "inside another document": c.St.Wrap} {
		o.LabelIf(b, "spelling: "+n)
	}
	doc := c.St.spell(c.S.XML(c.Schema))
	if _, err := readXML(doc); err != nil {
		return &core.HarnessError{Msg: fmt.Sprintf("spelled badly: %v\n%s", err, doc)}
	}
	return inZone(c.Zone, func() error {
		sis := &scte35.SpliceInfoSection{}
		var err error
		if c.St.Wrap {
			w := struct {
				S *scte35.SpliceInfoSection `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
			}{}
			if err = xml.Unmarshal(doc, &w); w.S != nil {
				sis = w.S
			}
		} else {
			err = xml.Unmarshal(doc, sis)
		}
		if err != nil {
			return fail("unmarshal: %v\n%s", err, doc)
		}
		if err := equalDoc(sis, c.S); err != nil {
			return fail("%v\n%s", err, doc)
		}
		return nil
	})
}

type jdocCase struct {
	S    *ref.Section `json:"s"`
	St   jstyle       `json:"style"`
	Zone int          `json:"zone,omitempty"`
}

func genJDoc(t *rapid.T) jdocCase {
	c := jdocCase{S: gen.Section(t, gen.Cfg{Encrypt: true, PreRoll: true, NoStuff: true, NoBulk: gen.P(t, 80)}), St: genJStyle(t), Zone: genZone(t)}
	docText(t, c.S, false)
	if gen.P(t, 30) {
		c.S.SAP = 3
	}
	return c
}

func checkJSONWrite(c jdocCase, o *core.Obs) error {
	classify(c.S, o)
	if rich(c.S) {
		o.NonTrivial()
	}
	return inZone(c.Zone, func() error {
		for i := 0; i < 2; i++ {
			sis := api.Section(c.S)
			doc, err := json.Marshal(sis)
			if i == 1 {
				doc, err = json.MarshalIndent(sis, "", "\t")
			}
			if err != nil {
				return fail("marshal: %v", err)
			}
			v, err := readJSON(doc)
			if err != nil {
				return fail("not well-formed: %v\n%s", err, doc)
			}
			if err := cmpJSON(v, c.S.JSON(), "$"); err != nil {
				return fail("%v\n%s", err, doc)
			}
		}
		return nil
	})
}

func checkJSONRead(c jdocCase, o *core.Obs) error {
	classify(c.S, o)
	if rich(c.S) {
		o.NonTrivial()
	}
	for n, b := range map[string]bool{"white space": c.St.Space, "shuffled members": c.St.Shuffle, "unknown members": c.St.Unknown, "zeros left out": c.St.Drop,
		"nulls": c.St.Null, "escapes": c.St.Esc, "zones": c.St.Zone, "upper-case hexadecimal": c.St.Upper, "inside a list": c.St.Wrap, "CUEI given": c.St.CUEI} {
		o.LabelIf(b, "spelling: "+n)
	}
	doc := c.St.spell(c.S.JSON())
	if !json.Valid(doc) {
		return &core.HarnessError{Msg: fmt.Sprintf("spelled badly:\n%s", doc)}
	}
	return inZone(c.Zone, func() error {
		sis := &scte35.SpliceInfoSection{}
		var err error
		if c.St.Wrap {
			var l []*scte35.SpliceInfoSection
			if err = json.Unmarshal(doc, &l); err == nil && len(l) == 1 {
				sis = l[0]
			}
		} else {
			err = json.Unmarshal(doc, sis)
		}
		if err != nil {
			return fail("unmarshal: %v\n%s", err, doc)
		}
		if err := equalDoc(sis, c.S); err != nil {
			return fail("%v\n%s", err, doc)
		}
		return nil
	})
}

// ---- P10

type textCase struct {
	Data ref.Hex `json:"data"`
	Case uint64  `json:"case"`   // which hexadecimal digits are upper case
	Pre  bool    `json:"prefix"` // 0x
}

func hexText(c *textCase) string {
	s := []byte(hex.EncodeToString(c.Data))
	x := c.Case
	for i := range s {
		x = x*6364136223846793005 + 1442695040888963407
		if c.Case != 0 && (c.Case == 1 || x>>63 == 1) {
			s[i] = strings.ToUpper(string(s[i]))[0]
		}
	}
	if c.Pre {
		return "0x" + string(s)
	}
	return string(s)
}

// sameResult compares two results of decoding.
func sameResult(got *scte35.SpliceInfoSection, gerr error, want *scte35.SpliceInfoSection, werr error) error {
	if got == nil {
		return fail("nil section")
	}
	if errClass(gerr) != errClass(werr) {
		return fail("error %v, from bytes %v", gerr, werr)
	}
	if d := ref.Diff(api.Lines(got), api.Lines(want)); d != "" {
		return fail("content: %s", d)
	}
	if werr == nil {
		a, err1 := got.Encode()
		b, err2 := want.Encode()
		if err1 != nil || err2 != nil || !bytes.Equal(a, b) {
			return fail("encodes to %x, from bytes to %x (%v, %v)", a, b, err1, err2)
		}
	}
	return nil
}

func checkTexts(c textCase, o *core.Obs) error {
	want, werr := decode(c.Data)
	o.Label(errClass(werr))
	if len(c.Data) > 0 {
		o.NonTrivial()
	}
	b64 := base64.StdEncoding.EncodeToString(c.Data)
	got, err := scte35.DecodeBase64(b64)
	if e := sameResult(got, err, want, werr); e != nil {
		return fail("DecodeBase64(%q): %v", b64, e)
	}
	h := hexText(&c)
	o.LabelIf(c.Pre, "0x")
	o.LabelIf(c.Case != 0, "upper-case digits")
	got, err = scte35.DecodeHex(h)
	if e := sameResult(got, err, want, werr); e != nil {
		return fail("DecodeHex(%q): %v", h, e)
	}
	return nil
}

type badText struct {
	Text string `json:"text"`
	Hex  bool   `json:"hex"`
}

func isHexText(s string) bool {
	s = strings.TrimPrefix(s, "0x")
	if len(s)%2 != 0 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !strings.ContainsRune("0123456789abcdefABCDEF", rune(s[i])) {
			return false
		}
	}
	return true
}

func isBase64Text(s string) bool {
	if len(s)%4 != 0 {
		return false
	}
	body := strings.TrimSuffix(s, "=")
	if len(body) < len(s) {
		body = strings.TrimSuffix(body, "=")
	}
	for i := 0; i < len(body); i++ {
		if !strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", rune(body[i])) {
			return false
		}
	}
	return true
}

func genBadText(t *rapid.T) badText {
	var data []byte
	if gen.B(t) {
		data = gen.Section(t, gen.Cfg{NoBulk: true}).Canonical()
	} else {
		data = gen.Bytes(t, 0, 40)
	}
	c := badText{Hex: gen.B(t)}
	if c.Hex {
		c.Text = hex.EncodeToString(data)
		if gen.B(t) {
			c.Text = "0x" + c.Text
		}
	} else {
		c.Text = base64.StdEncoding.EncodeToString(data)
	}
	for n := gen.N(t, 1, 2); n > 0; n-- {
		at := gen.N(t, 0, len(c.Text))
		if gen.P(t, 30) {
			at = len(c.Text)
		}
		if gen.P(t, 20) {
			at = 0
		}
		bad := []string{" ", "=", "-", "_", "g", "G", ".", "\x00", "é", "0x", "x", "%", "*", "==", "A", "\t", "\xff", ",", "#", "===="}[gen.N(t, 0, 19)]
		switch gen.N(t, 0, 5) {
		case 0: // any other character
			if bad = string(rune(gen.N(t, 0, 0x7F))); !c.Hex && (bad == "\n" || bad == "\r") {
				bad = "~" // line breaks may stand in Base64
			}
		case 1: // what other notations have around them
			bad = pick(t, []string{"h", "H", "0X", "x", "\"", "'", "`", "0b", "hex:", "base64,", ":", "h'", "/", "+", "\uFEFF", "\u00A0", "0x0x", "{", "}", "<", ">", ";", "0o", "#x", "&h", "$"})
		}
		switch gen.N(t, 0, 3) {
		case 0, 1:
			c.Text = c.Text[:at] + bad + c.Text[at:]
		case 2:
			if at < len(c.Text) {
				c.Text = c.Text[:at] + bad + c.Text[at+1:]
			} else {
				c.Text += bad
			}
		case 3:
			if len(c.Text) > 0 {
				at = min(at, len(c.Text)-1)
				c.Text = c.Text[:at] + c.Text[at+1:]
			}
		}
	}
	c.Text = strings.ToValidUTF8(c.Text, "\uFFFD")
	return c
}

func checkBadText(c badText, o *core.Obs) error {
	f, ok, name := scte35.DecodeBase64, isBase64Text(c.Text), "DecodeBase64"
	if c.Hex {
		f, ok, name = scte35.DecodeHex, isHexText(c.Text), "DecodeHex"
	}
	sis, err := f(c.Text)
	if sis == nil {
		return fail("%s(%q): nil section", name, c.Text)
	}
	o.LabelIf(ok, "a well-formed text")
	if ok {
		if errors.Is(err, scte35.ErrUnsupportedEncoding) {
			return fail("%s(%q): %v, but the text is well-formed", name, c.Text, err)
		}
		return nil
	}
	o.NonTrivial()
	o.Label(name)
	if !errors.Is(err, scte35.ErrUnsupportedEncoding) {
		return fail("%s(%q): error %v", name, c.Text, err)
	}
	if d := ref.Diff(api.Lines(sis), api.Lines(&scte35.SpliceInfoSection{})); d != "" {
		return fail("%s(%q): the section is not empty: %s", name, c.Text, d)
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID: "P06",
		Rule: "sections, built or decoded, are marshalled to XML (plain, indented, with header, inside another document, under several local time zones) and " +
			"read back; every field, the pre-roll, the kinds and the binary encoding are compared; non-trivial: a command with a body or a descriptor",
		Assumptions: []string{"UPID text has no control characters (known finding) and no white space at its ends; DTMF and ISO codes are printable ASCII"},
		Subs:        []*core.Sub{core.New("round-trip", 160000, 1600000, genDoc(true), docRoundTrip("xml"))},
	})
	core.Register(&core.Prop{
		ID: "P07",
		Rule: "sections, built or decoded, are marshalled to JSON (plain, indented, encoder without HTML escapes, inside another document, under several " +
			"local time zones) and read back; every field, the pre-roll, the kinds and the binary encoding are compared; non-trivial: a command with a " +
			"body or a descriptor",
		Assumptions: []string{"DTMF and ISO codes are ASCII"},
		Subs:        []*core.Sub{core.New("round-trip", 192000, 1920000, genDoc(false), docRoundTrip("json"))},
	})
	core.Register(&core.Prop{
		ID: "P08",
		Rule: "write: the XML of a section is parsed into a tree and compared with the tree an independent renderer of the schema gives; read: that tree is " +
			"spelled in drawn ways (prefixes, comments, white space, 1/0, quotes, references, CDATA, Ext, foreign attributes, defaults, order, zones) and read; " +
			"non-trivial: a command with a body or a descriptor",
		Assumptions: []string{"PrivateDescriptor, PrivateCommand and FullSrvcAudio are taken in the library's own form (known findings)"},
		Subs: []*core.Sub{
			core.New("write", 96000, 960000, stated(genXDoc, func(c *xdocCase) *ref.Section { return c.S }), checkXMLWrite),
			core.New("read", 96000, 960000, genXDoc, checkXMLRead),
		},
	})
	core.Register(&core.Prop{
		ID: "P09",
		Rule: "write: the JSON of a section is compared member by member with what an independent renderer gives; read: the rendering is spelled in drawn ways " +
			"(order, white space, unknown members, zeros left out, nulls, escapes, zones) and read; non-trivial: a command with a body or a descriptor",
		Subs: []*core.Sub{
			core.New("write", 96000, 960000, stated(genJDoc, func(c *jdocCase) *ref.Section { return c.S }), checkJSONWrite),
			core.New("read", 96000, 960000, genJDoc, checkJSONRead),
		},
	})
	core.Register(&core.Prop{
		ID:    "P10",
		Boost: 6,
		Rule: "of-section: Base64 and Hex of sections against the bytes of Encode and the reference encoding; decode: both text forms of valid and malformed " +
			"signals (digits of either case, with and without 0x) against decoding the bytes; bad: texts with characters inserted, replaced and removed; " +
			"non-trivial: a non-empty signal, or a text that is not well-formed",
		Assumptions: []string{"line breaks in Base64 and unused trailing bits are not judged"},
		Subs: []*core.Sub{
			core.New("of-section", 72000, 720000, func(t *rapid.T) docCase {
				return docCase{S: gen.Section(t, gen.Cfg{Encrypt: true}), Decoded: true}
			}, func(c docCase, o *core.Obs) error {
				classify(c.S, o)
				if rich(c.S) {
					o.NonTrivial()
				}
				sis, err := c.start()
				if err != nil {
					return err
				}
				b, err := sis.Encode()
				if err != nil {
					return fail("encode: %v", err)
				}
				if c.S.EncAlg == 0 {
					if err := sameBytes(b, c.S.Canonical(), false); err != nil {
						return err
					}
				}
				if g, w := sis.Base64(), base64.StdEncoding.EncodeToString(b); g != w {
					return fail("Base64 is %s, want %s", g, w)
				}
				if g, err := hex.DecodeString(sis.Hex()); err != nil || !bytes.Equal(g, b) {
					return fail("Hex is %s, want %x", sis.Hex(), b)
				}
				if again, err := sis.Encode(); err != nil || !bytes.Equal(again, b) {
					return fail("a second Encode gives %x, want %x", again, b)
				}
				return nil
			}),
			core.New("decode", 120000, 1200000, func(t *rapid.T) textCase {
				c := textCase{Pre: gen.B(t), Case: uint64(gen.N(t, 0, 5))}
				if gen.P(t, 60) {
					c.Data = gen.Section(t, gen.Cfg{WireUPID: true, NoBulk: gen.P(t, 80)}).Canonical()
				} else {
					c.Data = anyBytes(t)
				}
				return c
			}, checkTexts),
			core.New("bad", 180000, 1800000, genBadText, checkBadText,
				badText{"A", false}, badText{"A===", false}, badText{"AA=A", false}, badText{"/DAWAAAAAAAAAP/wBQb+AA==\x00", false},
				badText{"=", false}, badText{"====", false}, badText{"0x0", true}, badText{"0x0x00", true}, badText{"fc3", true}, badText{" fc30", true},
				badText{"fc30 ", true}, badText{"", true}, badText{"", false}, badText{"0x", true}, badText{"_-__", false}),
		},
	})
}
