package checks

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// badDoc is a document that something is wrong with.
type badDoc struct {
	Kind string `json:"kind"` // "json", "xml"
	Doc  string `json:"doc"`
	Bin  []byte `json:"bin,omitempty"` // instead of Doc when it is no text
	Must bool   `json:"must"`          // has to be refused
	What string `json:"what"`
}

func (c *badDoc) put(b []byte) {
	if utf8.Valid(b) {
		c.Doc, c.Bin = string(b), nil
		return
	}
	c.Doc, c.Bin = "", b
}

func (c *badDoc) bytes() []byte {
	if c.Bin != nil {
		return append([]byte{}, c.Bin...)
	}
	return []byte(c.Doc)
}

// wellFormed tells whether the document - for XML, its first root element,
// which is what is read - obeys the syntax.
func wellFormed(kind string, b []byte) bool {
	if kind == "json" {
		return json.Valid(b)
	}
	d := xml.NewDecoder(bytes.NewReader(b))
	depth := 0
	for {
		tok, err := d.Token()
		if err != nil {
			return false
		}
		switch tok.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			if depth--; depth == 0 {
				return true
			}
		}
	}
}

// small tells that a document is too small to reach the limits of the
// standard library's own readers.
func small(b []byte) bool { return len(b) < 1<<16 }

func checkBadDoc(c badDoc, o *core.Obs) error {
	o.Label(c.Kind + " " + c.What)
	doc := c.bytes()
	ok := wellFormed(c.Kind, doc)
	o.LabelIf(!ok, c.Kind+" not well-formed")
	must := c.Must || !ok
	if must || c.What != "" {
		o.NonTrivial()
	}
	type way struct {
		name string
		f    func(*scte35.SpliceInfoSection) error
	}
	ways := []way{{"xml.Unmarshal", func(s *scte35.SpliceInfoSection) error { return xml.Unmarshal(doc, s) }},
		{"an XML stream", func(s *scte35.SpliceInfoSection) error {
			return xml.NewDecoder(struct{ io.Reader }{strings.NewReader(string(doc))}).Decode(s)
		}}}
	if c.Kind == "json" {
		ways = []way{{"json.Unmarshal", func(s *scte35.SpliceInfoSection) error { return json.Unmarshal(doc, s) }},
			{"UnmarshalJSON", func(s *scte35.SpliceInfoSection) error { return s.UnmarshalJSON(doc) }}}
	}
	o.Evals(len(ways) - 1)
	var first string
	for i, w := range ways {
		sis := &scte35.SpliceInfoSection{}
		err := w.f(sis)
		if must && err == nil {
			return fail("%s accepts the document (%s)", w.name, c.What)
		}
		observe(sis) // safe, whatever was read
		got := fmt.Sprint(err == nil, " ", err == nil && sis.SpliceCommand == nil)
		if err == nil && small(doc) {
			got += dump(sis)
		}
		if i == 0 {
			first = got
		} else if got != first {
			return fail("%s and %s disagree: %s and %s", ways[0].name, w.name, first, got)
		}
		o.LabelIf(i == 0 && err == nil, c.Kind+" accepted")
		o.LabelIf(i == 0 && err != nil, c.Kind+" refused")
	}
	return nil
}

// wide names the members and attributes that hold 64 bits.
var wide = map[string]bool{"ptsAdjustment": true, "ptsTime": true, "duration": true, "segmentationDuration": true, "ptsOffset": true, "taiSeconds": true}

// what a member that is absent here would be
var objectNames = map[string]bool{"program": true, "spliceTime": true, "breakDuration": true, "deliveryRestrictions": true, "encryptedPacket": true, "spliceCommand": true}

var (
	badNumbers = []string{`"5"`, `true`, `{}`, `[]`, `-1`, `1.5`, `1e2`, `18446744073709551616`, `"abc"`, `[1]`, `""`}
	badBools   = []string{`1`, `0`, `"true"`, `[]`, `{}`, `""`, `"1"`}
	badTexts   = []string{`5`, `true`, `[]`, `{}`, `["a"]`}
	badHex     = []string{`"0"`, `"zz"`, `"0x00"`, `" 00"`, `"00 "`, `"0g"`, `"é"`, `"00:11"`, `5`, `{}`, `true`}
	badTimes   = []string{`5`, `true`, `{}`, `[]`, `""`, `"yesterday"`, `"2020-13-01T00:00:00Z"`, `"2020-02-30T00:00:00Z"`, `"2020-01-01"`, `"2020-01-01T25:00:00Z"`, `"1577836800"`}
	badLists   = []string{`5`, `"x"`, `{}`, `true`, `[5]`, `["x"]`, `[[]]`, `[true]`, `{"0":{}}`}
	badObjects = []string{`5`, `"x"`, `[]`, `true`, `[{}]`, `""`}
)

// jsonSite is a place in a document.
type jsonSite struct {
	o    *ref.Obj
	i    int   // member
	list []any // or an element of a list
	k    int
	name string
}

func (s *jsonSite) val() any {
	if s.list != nil {
		return s.list[s.k]
	}
	return s.o.Vals[s.i]
}

func (s *jsonSite) set(v any) {
	if s.list != nil {
		s.list[s.k] = v
		return
	}
	s.o.Vals[s.i] = v
}

func jsonSites(v any, name string, out []*jsonSite) []*jsonSite {
	switch x := v.(type) {
	case *ref.Obj:
		for i, n := range x.Names {
			out = append(out, &jsonSite{o: x, i: i, name: n})
			out = jsonSites(x.Vals[i], n, out)
		}
	case []any:
		for k := range x {
			out = append(out, &jsonSite{list: x, k: k, name: name})
			out = jsonSites(x[k], name, out)
		}
	}
	return out
}

func pick[T any](t *rapid.T, l []T) T { return l[gen.N(t, 0, len(l)-1)] }

// choose picks a site, kinds of place first so that the rare ones get their
// share.
func choose(t *rapid.T, sites []*jsonSite) *jsonSite {
	names := map[string][]*jsonSite{}
	var order []string
	for _, s := range sites {
		if names[s.name] == nil {
			order = append(order, s.name)
		}
		names[s.name] = append(names[s.name], s)
	}
	return pick(t, names[pick(t, order)])
}

func genBadJSON(t *rapid.T) badDoc {
	s := gen.Section(t, gen.Cfg{Doc: true, PreRoll: true, NoBulk: true})
	st := genJStyle(t)
	st.Wrap = false
	c := badDoc{Kind: "json", Must: true}
	root := s.JSON()
	if gen.P(t, 4) {
		c.What = "root is no object"
		c.put([]byte(pick(t, []string{`5`, `"x"`, `[]`, `[{}]`, `true`, `"{}"`})))
		return c
	}
	site := choose(t, jsonSites(root, "", nil))
	var l []string
	switch v := site.val().(type) {
	case *ref.Obj:
		l, c.What = badObjects, "object"
		if site.name == "spliceDescriptors" {
			l = append([]string{"null"}, badObjects...)
		}
	case []any:
		l, c.What = badLists, "list"
		if site.name == "spliceDescriptors" {
			l = append([]string{"[null]"}, badLists...)
		}
	case string:
		l, c.What = badTexts, "text"
		if site.name == "privateBytes" {
			l, c.What = badHex, "hexadecimal"
		}
	case bool:
		l, c.What = badBools, "bool"
	case ref.Instant:
		l, c.What = badTimes, "time"
	case uint64:
		l, c.What = badNumbers, "number"
		if !wide[site.name] {
			l = append([]string{"4294967296", "4294967297"}, badNumbers...)
		}
	case nil:
		c.What = "absent " + site.name
		switch {
		case objectNames[site.name]:
			l = badObjects
		case site.name == "components":
			l = badLists
		case wide[site.name]:
			l = badNumbers
		default:
			l = append([]string{"4294967296"}, badNumbers...)
		}
	default:
		panic(&core.HarnessError{Msg: fmt.Sprintf("value %T", v)})
	}
	site.set(json.RawMessage(pick(t, l)))
	c.What = "wrong " + c.What
	c.put(st.spell(root))
	return c
}

var (
	badXInts  = []string{"abc", "-1", "1.5", "+5", "0x10", "1e3", "1 2", "18446744073709551616", "99999999999999999999", "five", "0b1", "1_000", "١"}
	badXBools = []string{"yes", "2", "on", "truefalse", "10", "null", "-1"}
	badXTimes = []string{"yesterday", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01", "2020-01-01T25:00:00Z", "1577836800"}
	badXHex   = []string{"0", "zz", "0x00", "0g", "abc", "00 11 2"}
)

func ptrTo(s string) *string { return &s }

var knownNames = []string{"SpliceNull", "SpliceSchedule", "SpliceInsert", "TimeSignal", "BandwidthReservation", "PrivateCommand", "AvailDescriptor",
	"DTMFDescriptor", "SegmentationDescriptor", "TimeDescriptor", "AudioDescriptor", "PrivateDescriptor", "EncryptedPacket", "Ext"}

// unknownName is an element name close to one that means something in a
// section, or one that means something elsewhere only.
func unknownName(t *rapid.T) string {
	if gen.P(t, 30) {
		return pick(t, []string{"SegmentationUpid", "Component", "BreakDuration", "Program", "Foo", "SpliceDescriptor", "Event", "Extension", "SpliceTime",
			"SpliceInfoSection", "AudioChannel", "DeliveryRestrictions", "Descriptor", "Command", "SpliceCommand", "Reserved", "Signal", "_", "Binary",
			"AvailsDescriptor", "Private", "Segmentation", "Time", "Avail", "Audio", "DTMF", "Null", "Insert", "Any", "any"})
	}
	n := pick(t, knownNames)
	for {
		k := gen.N(t, 0, len(n)-1)
		var m string
		switch gen.N(t, 0, 6) {
		case 0: // a character more
			m = n[:k+1] + pick(t, []string{"s", "2", "x", "-", "_", ".", "X"}) + n[k+1:]
		case 1: // one at the end
			m = n + pick(t, []string{"s", "2", "Type", "_", ".", "Descriptor", "Command", "Element"})
		case 2: // one less
			m = n[:k] + n[k+1:]
		case 3: // the case of one
			m = n[:k] + string(n[k]^0x20) + n[k+1:]
		case 4:
			m = strings.ToLower(n)
		case 5:
			m = strings.ToUpper(n)
		case 6:
			m = pick(t, []string{"_", "Splice", "X", "My", "SCTE"}) + n
		}
		if m != "" && !slices.Contains(knownNames, m) && (m[0] == '_' || m[0] >= 'A' && m[0] <= 'Z' || m[0] >= 'a' && m[0] <= 'z') {
			return m
		}
		n = n + "x"
	}
}

type xmlSite struct {
	n    *ref.Node
	attr int // -1: the text
}

func genBadXML(t *rapid.T) badDoc {
	s := gen.Section(t, gen.Cfg{Doc: true, PreRoll: true, NoBulk: true})
	docText(t, s, true)
	st := genStyle(t)
	c := badDoc{Kind: "xml", Must: true}
	root := s.XML(false)
	st.Wrap, st.Drop = false, false
	var sites []xmlSite
	var walk func(n *ref.Node)
	walk = func(n *ref.Node) {
		for i, a := range n.Attrs {
			if a.Kind != "text" {
				sites = append(sites, xmlSite{n, i})
			}
		}
		if n.Name == "PrivateCommand" || n.Name == "PrivateDescriptor" {
			sites = append(sites, xmlSite{n, -1}, xmlSite{n, -1})
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(root)
	if gen.P(t, 12) {
		name := unknownName(t)
		if gen.P(t, 50) {
			n := &ref.Node{Name: name}
			c.What = "unknown element"
			if gen.P(t, 40) {
				n.NS = []*string{new(string), ptrTo("urn:other"), ptrTo("http://www.scte.org/schemas/35/2016")}[gen.N(t, 0, 2)]
				c.What = "unknown element of another namespace"
			}
			at := gen.N(t, 0, len(root.Kids))
			root.Kids = append(root.Kids[:at:at], append([]*ref.Node{n}, root.Kids[at:]...)...)
		} else {
			pick(t, root.Kids[1:]).Name = name
			c.What = "renamed command or descriptor"
		}
		c.put(st.spell(root))
		return c
	}
	x := sites[gen.N(t, 0, len(sites)-1)]
	x.n.OptEmpty = false
	if x.attr < 0 {
		x.n.Text = pick(t, badXHex)
		c.What = "wrong hexadecimal"
	} else {
		a := &x.n.Attrs[x.attr]
		switch a.Kind {
		case "int":
			l := badXInts
			if !wide[a.Name] {
				l = append([]string{"4294967296", "4294967297"}, badXInts...)
			}
			a.Val, c.What = pick(t, l), "wrong number"
		case "bool":
			a.Val, c.What = pick(t, badXBools), "wrong bool"
		case "time":
			a.Val, c.What = pick(t, badXTimes), "wrong time"
		}
		a.Kind, a.Opt, a.Default = "raw", "", ""
	}
	c.put(st.spell(root))
	return c
}

// good is a document that describes a section.
func goodDoc(t *rapid.T, kind string) []byte {
	s := gen.Section(t, gen.Cfg{Doc: true, PreRoll: true, NoBulk: true})
	if kind == "json" {
		st := genJStyle(t)
		st.Wrap = false
		return st.spell(s.JSON())
	}
	docText(t, s, true)
	st := genStyle(t)
	st.Wrap = false
	return st.spell(s.XML(gen.P(t, 50)))
}

// genDamaged damages the syntax.
func genDamaged(t *rapid.T) badDoc {
	c := badDoc{Kind: pick(t, []string{"json", "xml"})}
	b := goodDoc(t, c.Kind)
	end := bytes.LastIndexAny(b, "}>")
	switch k := gen.N(t, 0, 6); {
	case k == 0:
		c.What, c.Must = "cut", true
		b = b[:gen.N(t, 0, end)]
	case k == 1 && c.Kind == "json":
		c.What, c.Must = "something after the end", true
		b = append(b, pick(t, []string{"}", "x", "{}", ",", "]", "\x00", "//c"})...)
	case k == 1 && c.Kind == "xml":
		c.What, c.Must = "wrong end tag", true
		i := bytes.LastIndex(b, []byte("</"))
		if i < 0 { // <.../> only
			i = end - 1
			b = append(append([]byte{}, b[:i]...), ">"...)
			break
		}
		b = append(append([]byte{}, b[:i+2]...), "X"+string(b[i+2:])...)
	case k == 2 && c.Kind == "xml":
		c.What, c.Must = "bad markup", true
		i := bytes.IndexByte(b, '>')
		for i > 0 && (b[i-1] == '?' || b[i-1] == '-') {
			i += 1 + bytes.IndexByte(b[i+1:], '>')
		}
		junk := pick(t, []string{"&bogus;", "&", "<", "<1a/>", "<!-- a -- b -->", "&#0;", "\x00", "<a b=c/>", "<a b='<'/>", "</SpliceInfoSectionX>", "&#x110000;", "\xff"})
		if b[i-1] == '/' { // the root is empty
			junk = junk + "<"
			b = append([]byte{}, b[:i-1]...)
			b = append(append(b, '>'), junk...)
			break
		}
		b = append(append(append([]byte{}, b[:i+1]...), junk...), b[i+1:]...)
	default:
		// bytes replaced, removed, inserted, moved: whether that is still a
		// document is for the check to find out
		c.What = "bytes"
		for n := gen.N(t, 1, 4); n > 0 && len(b) > 2; n-- {
			i, j := gen.N(t, 0, len(b)-1), gen.N(t, 0, len(b)-1)
			if i > j {
				i, j = j, i
			}
			if j-i > 40 && gen.P(t, 70) {
				j = i + gen.N(t, 0, 40)
			}
			switch gen.N(t, 0, 4) {
			case 0:
				b = append(append([]byte{}, b[:i]...), b[j:]...)
			case 1:
				b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
			case 2:
				b = append([]byte{}, b...)
				b[i] = byte(gen.N(t, 0, 255))
			case 3:
				b = append(append(append([]byte{}, b[:i]...), pick(t, []string{"null", "-1", "{}", "[]", `"`, "<", ">", "/", "&", "]]>", "<![CDATA[", "<Ext>", ",", ":", "\\", "\\ud800",
					"9999999999999999999999", "1e999", "type", "\xef\xbb\xbf", "\x00", "\xc3\x28"})...), b[i:]...)
			case 4:
				b = append(append(append([]byte{}, b[:i]...), goodDoc(t, c.Kind)[:]...), b[j:]...)
			}
			if len(b) > 1<<17 {
				break
			}
		}
	}
	c.put(b)
	return c
}

var wildValues = []string{"null", "{}", "[]", "[null]", "[{}]", "[[]]", "0", "1", "5", "255", "256", "4294967295", "8589934592", "18446744073709551615",
	`""`, `"\u0000"`, `"\ud800"`, `"é"`, `"🎬"`, `"//"`, `"10.5240/"`, `"/"`, "true", "false", `"zz"`, `"00"`, `[{},{},{}]`, `{"type":2}`, `{"spliceTime":{}}`,
	`[{"type":2,"segmentationUpids":[{}]}]`, `[{"type":2,"segmentationUpids":null,"components":[{}]}]`, `[{"type":4,"audioChannels":[{}]}]`, `[{"type":1,"chars":null}]`,
	`{"type":4,"events":[{"components":[{}]}]}`, `{"type":5,"components":[{}]}`, `{"type":255}`, `{"type":4,"events":[{}]}`}

// genWild rearranges documents.
func genWild(t *rapid.T) badDoc {
	if gen.P(t, 50) {
		return genWildXML(t)
	}
	c := badDoc{Kind: "json"}
	s := gen.Section(t, gen.Cfg{Doc: true, PreRoll: true, NoBulk: true})
	root := s.JSON()
	for n := gen.N(t, 1, 3); n > 0; n-- {
		site := choose(t, jsonSites(root, "", nil))
		switch gen.N(t, 0, 6) {
		case 0, 1:
			c.What = "any value"
			l := wildValues
			if gen.P(t, 75) { // of the right kind, but odd
				c.What = "odd value"
				switch site.val().(type) {
				case *ref.Obj:
					l = []string{"{}", "null"}
					if site.name == "spliceDescriptors" {
						l = []string{`{"type":2,"segmentationUpids":[{}]}`, `{"type":2,"components":[{}],"deliveryRestrictions":{}}`, `{"type":4,"audioChannels":[{}]}`, `{"type":1,"chars":null}`,
							`{"type":77}`, `{"type":0,"identifier":1}`, `{"identifier":0}`, "{}", `{"type":4,"audioChannels":[{"isoCode":"é"}]}`, `{"type":1,"chars":"0123456789012345678901234567890123456789"}`}
					}
					if site.name == "spliceCommand" {
						l = []string{"{}", "null", `{"type":4,"events":[{"components":[{}]}]}`, `{"type":5,"components":[{}]}`, `{"type":255}`, `{"type":4,"events":[{}]}`, `{"type":4,"events":[null]}`,
							`{"type":5,"program":{}}`, `{"type":6}`, `{"type":6,"spliceTime":null}`, `{"type":200}`, `{"type":5,"components":[null]}`, `{"type":4,"events":[{"program":{}}]}`, `{"type":4,"events":[{"program":{"utcSpliceTime":"0001-01-01T00:00:00Z"}}]}`}
					}
				case []any:
					l = []string{"null", "[]", "[{}]", "[null]", "[{},{},{}]"}
				case string:
					l = []string{`""`, `"\u0000"`, `"\ud800"`, `"é"`, `"🎬"`, `"//"`, `"10.5240/"`, `"/"`, `"00"`, `"ffffff"`, `"10.5240/F85A-E100-B068-5B8F-T"`, `"-"`, `"%"`, "null"}
				case bool:
					l = []string{"true", "false", "null"}
				case uint64:
					l = []string{"0", "1", "5", "8", "13", "255", "256", "4095", "65536", "4294967295", "null"}
				}
			}
			site.set(json.RawMessage(pick(t, l)))
		case 2:
			c.What = "removed"
			site.set(nil)
		case 3:
			c.What = "swapped"
			other := choose(t, jsonSites(root, "", nil))
			a, b := raw(site.val()), raw(other.val())
			site.set(b)
			other.set(a)
		case 4:
			c.What = "long list"
			v := raw(site.val())
			if _, ok := site.val().([]any); ok {
				v = raw(site.val())
				if len(v) > 2 {
					v = v[1 : len(v)-1]
				} else {
					v = json.RawMessage("{}")
				}
			}
			k := min(gen.N(t, 1, 3000), 1<<20/(len(v)+1))
			site.set(json.RawMessage("[" + strings.Repeat(string(v)+",", k) + string(v) + "]"))
		case 5:
			c.What = "long text"
			k := gen.N(t, 1, 70000)
			site.set(json.RawMessage(strconv.Quote(strings.Repeat(pick(t, []string{"0", "00", "a", "/", "-"}), k))))
		case 6:
			c.What = "deep"
			k := gen.N(t, 1, 20000)
			b := pick(t, []string{"[]", "{}"})
			if b == "[]" {
				site.set(json.RawMessage(strings.Repeat("[", k) + strings.Repeat("]", k)))
			} else {
				site.set(json.RawMessage(strings.Repeat(`{"a":`, k) + "1" + strings.Repeat("}", k)))
			}
		}
		if c.What == "deep" || c.What == "long list" {
			break
		}
	}
	st := genJStyle(t)
	st.Wrap = false
	c.put(st.spell(root))
	return c
}

func raw(v any) json.RawMessage {
	w := &jwriter{}
	w.val(v, "")
	return json.RawMessage(w.sb.String())
}

func genWildXML(t *rapid.T) badDoc {
	c := badDoc{Kind: "xml"}
	s := gen.Section(t, gen.Cfg{Doc: true, PreRoll: true, NoBulk: true})
	docText(t, s, true)
	root := s.XML(gen.P(t, 50))
	for n := gen.N(t, 1, 3); n > 0; n-- {
		var nodes, parents []*ref.Node
		var walk func(p, n *ref.Node)
		walk = func(p, n *ref.Node) {
			nodes, parents = append(nodes, n), append(parents, p)
			for _, k := range n.Kids {
				walk(n, k)
			}
		}
		walk(nil, root)
		if len(nodes) > 1000 { // large enough
			break
		}
		i := gen.N(t, 0, len(nodes)-1)
		x, p := nodes[i], parents[i]
		switch gen.N(t, 0, 7) {
		case 0:
			c.What = "attribute removed"
			if len(x.Attrs) > 0 {
				k := gen.N(t, 0, len(x.Attrs)-1)
				x.Attrs = append(append([]ref.Attr{}, x.Attrs[:k]...), x.Attrs[k+1:]...)
			}
		case 1:
			c.What = "attribute changed"
			if len(x.Attrs) > 0 {
				a := &x.Attrs[gen.N(t, 0, len(x.Attrs)-1)]
				a.Kind, a.Opt, a.Default = "raw", "", ""
				a.Val = pick(t, []string{"", "0", "1", "255", "4294967295", "8589934592", "18446744073709551615", "true", " 1 ", "é", "x", "-0"})
			}
		case 2:
			c.What = "element removed"
			if p != nil {
				p.Kids = without(p.Kids, x)
			}
		case 3:
			c.What = "element repeated"
			if p != nil {
				k := min(gen.N(t, 1, 2000), 200000/(1+len(raw0(x))))
				for ; k > 0; k-- {
					p.Kids = append(p.Kids, x)
				}
			}
		case 4:
			c.What = "element moved"
			q := nodes[gen.N(t, 0, len(nodes)-1)]
			if len(nodes) < 500 && len(raw0(x)) < 20000 {
				q.Kids = append(append([]*ref.Node{}, q.Kids...), copyNode(x))
			}
		case 5:
			c.What = "text"
			x.Text = strings.Repeat(pick(t, []string{"0", "00", "zz", "é", "10.5240/", "/", "-", "~"}), gen.N(t, 0, 3000))
			x.Kids = nil
		case 6:
			c.What = "element renamed"
			x.Name = nodes[gen.N(t, 0, len(nodes)-1)].Name
		case 7:
			c.What = "deep"
			k := gen.N(t, 1, 12000)
			st := xstyle{}
			inner := string(st.spell(root))
			name := pick(t, []string{"Ext", "SpliceInfoSection", "SegmentationDescriptor", "SpliceTime", "a"})
			at := strings.Index(inner, ">")
			if at < 1 || inner[at-1] == '/' {
				continue
			}
			c.put([]byte(inner[:at+1] + strings.Repeat("<"+name+">", k) + strings.Repeat("</"+name+">", k) + inner[at+1:]))
			return c
		}
	}
	st := genStyle(t)
	st.Wrap = false
	c.put(st.spell(root))
	return c
}

func without(l []*ref.Node, x *ref.Node) []*ref.Node {
	var out []*ref.Node
	for _, k := range l {
		if k != x {
			out = append(out, k)
		}
	}
	return out
}

func copyNode(n *ref.Node) *ref.Node {
	k := *n
	k.Attrs = append([]ref.Attr{}, n.Attrs...)
	k.Kids = nil
	for _, x := range n.Kids {
		k.Kids = append(k.Kids, copyNode(x))
	}
	return &k
}

func raw0(n *ref.Node) []byte { return xstyle{}.spell(n) }

func init() {
	core.Register(&core.Prop{
		ID:   "P23",
		Rule: "a document is non-trivial if something was done to it (a value of the wrong kind put in, its syntax damaged, its parts rearranged)",
		Assumptions: []string{"well-formedness is what encoding/json and encoding/xml say it is",
			"null scalars, empty XML attributes, unknown JSON command and descriptor types (kept as private), duplicates and a document without a command are judged for safety only"},
		Subs: []*core.Sub{
			core.New("wrong-value-json", 60000, 400000, genBadJSON, checkBadDoc),
			core.New("wrong-value-xml", 40000, 250000, genBadXML, checkBadDoc),
			core.New("syntax", 40000, 300000, genDamaged, checkBadDoc),
			core.Fuzz("coverage-guided-json", 1500000, 40, docSeed("json"), fuzzDoc("json"), checkBadDoc),
			core.Fuzz("coverage-guided-xml", 1500000, 40, docSeed("xml"), fuzzDoc("xml"), checkBadDoc),
			core.New("rearranged", 15000, 200000, genWild, checkBadDoc),
		},
	})
}

func fuzzDoc(kind string) func([]byte) badDoc {
	return func(b []byte) badDoc {
		c := badDoc{Kind: kind, What: "fuzzed"}
		c.put(b)
		return c
	}
}

// docSeed is the i-th document a campaign starts from.
func docSeed(kind string) func(int) []byte {
	return func(i int) []byte {
		if i == 0 {
			return nil
		}
		g := rapid.Custom(func(t *rapid.T) []byte { return goodDoc(t, kind) })
		return g.Example(i)
	}
}
