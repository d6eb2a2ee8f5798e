package checks

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
)

const scteNS = "http://www.scte.org/schemas/35"

// ---- writing

// xstyle is a way of spelling an XML document.
type xstyle struct {
	Seed     uint64 `json:"seed"` // for the per-place choices below
	Prefix   string `json:"prefix"`
	Mixed    bool   `json:"mixed,omitempty"` // default namespace and prefix in turn
	Decl     bool   `json:"decl,omitempty"`
	Space    bool   `json:"space,omitempty"`
	Comments bool   `json:"comments,omitempty"`
	Bool01   bool   `json:"bool01,omitempty"`
	Quote    bool   `json:"quote,omitempty"`
	CharRef  bool   `json:"charref,omitempty"`
	CDATA    bool   `json:"cdata,omitempty"`
	Ext      bool   `json:"ext,omitempty"`
	Drop     bool   `json:"drop,omitempty"` // leave out what says nothing
	Shuffle  bool   `json:"shuffle,omitempty"`
	Zone     bool   `json:"zone,omitempty"`
	Foreign  bool   `json:"foreign,omitempty"` // attributes of another namespace
	Wrap     bool   `json:"wrap,omitempty"`    // inside another document
	Pad      bool   `json:"pad,omitempty"`     // numbers and booleans with blanks around, numbers with leading zeros
}

func genStyle(t *rapid.T) xstyle {
	st := xstyle{Seed: uint64(gen.N(t, 0, 1<<20)), Prefix: []string{"", "", "scte35", "s", "ns0"}[gen.N(t, 0, 4)]}
	for _, p := range []*bool{&st.Mixed, &st.Decl, &st.Space, &st.Comments, &st.Bool01, &st.Quote, &st.CharRef, &st.CDATA, &st.Ext, &st.Drop,
		&st.Shuffle, &st.Zone, &st.Foreign, &st.Wrap, &st.Pad} {
		*p = gen.P(t, 35)
	}
	return st
}

type xwriter struct {
	st  xstyle
	rng uint64
	sb  strings.Builder
}

func (w *xwriter) n(k int) int {
	w.rng += 0x9E3779B97F4A7C15
	x := w.rng
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return int(x % uint64(k))
}

func (w *xwriter) gap() {
	if w.st.Space {
		w.sb.WriteString([]string{"\n", "\n\t", " ", "\r\n    ", ""}[w.n(5)])
	}
	if w.st.Comments && w.n(3) == 0 {
		w.sb.WriteString([]string{"<!-- a comment <SpliceNull/> -->", "<!---->", "<?pi some=\"thing\"?>"}[w.n(3)])
		if w.st.Space {
			w.sb.WriteString("\n")
		}
	}
}

func (w *xwriter) esc(s string, quote byte) {
	for _, r := range s {
		switch {
		case r == '<':
			w.sb.WriteString("&lt;")
		case r == '&':
			w.sb.WriteString([]string{"&amp;", "&#38;", "&#x26;"}[w.n(3)])
		case r == '>' && w.n(2) == 0:
			w.sb.WriteString("&gt;")
		case r == rune(quote):
			w.sb.WriteString(map[byte]string{'"': "&quot;", '\'': "&apos;"}[quote])
		case r == '>' && quote == 0: // "]]>" is not allowed in text
			w.sb.WriteString("&gt;")
		case r < 0x20 || r == 0x7F || (r >= 0x80 && r < 0xA0) || (w.st.CharRef && w.n(3) == 0):
			fmt.Fprintf(&w.sb, []string{"&#%d;", "&#x%x;", "&#x%04X;"}[w.n(3)], r)
		default:
			w.sb.WriteRune(r)
		}
	}
}

func (w *xwriter) attr(name, val string) {
	w.sb.WriteString([]string{" ", "  ", "\n  ", "\n", "\r\n", "\t"}[w.n(6)*boolInt(w.st.Space)])
	q := byte('"')
	if w.st.Quote && w.n(2) == 0 {
		q = '\''
	}
	w.sb.WriteString(name + "=" + string(q))
	w.esc(val, q)
	w.sb.WriteByte(q)
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

var extBodies = []string{
	`<%sExt/>`,
	`<%sExt><x:other xmlns:x="urn:x">text</x:other></%[1]sExt>`,
	`<%sExt><a xmlns=""><b tier="9">7</b></a><x:SpliceNull xmlns:x="urn:x"/></%[1]sExt>`,
	`<%sExt xmlns:y="urn:y" y:note="1"> <y:TimeSignal/> </%[1]sExt>`,
}

func (w *xwriter) elem(n *ref.Node, depth int) {
	if w.st.Drop && n.OptEmpty && w.n(2) == 0 {
		return
	}
	w.gap()
	prefix, decl := w.st.Prefix, ""
	if depth == 0 {
		decl = "xmlns"
		if prefix != "" {
			decl = "xmlns:" + prefix
		}
	} else if w.st.Mixed && w.n(3) == 0 {
		// declare the namespace anew under another prefix
		prefix = "q" + strconv.Itoa(depth)
		decl = "xmlns:" + prefix
	}
	space := scteNS
	if n.NS != nil {
		prefix, decl, space = "", "xmlns", *n.NS
		if space != "" && w.n(2) == 0 {
			prefix, decl = "f", "xmlns:f"
		}
	}
	name := n.Name
	if prefix != "" {
		name = prefix + ":" + name
	}
	w.sb.WriteString("<" + name)
	type at struct{ n, v string }
	var as []at
	if decl != "" {
		as = append(as, at{decl, space})
	}
	for _, a := range n.Attrs {
		if w.st.Drop && w.n(2) == 0 && ((a.Opt != "" && a.Opt == a.Val) || (a.Default != "" && a.Default == a.Val)) {
			continue
		}
		v := a.Val
		switch a.Kind {
		case "bool":
			if w.st.Bool01 && w.n(3) > 0 {
				v = map[string]string{"true": "1", "false": "0"}[v]
			}
			if w.st.Pad && w.n(3) == 0 {
				v = []string{" %s", "%s ", "\t%s ", "  %s"}[w.n(4)]
				v = fmt.Sprintf(v, a.Val)
			}
		case "int":
			if w.st.Pad && w.n(3) == 0 {
				v = fmt.Sprintf([]string{"0%s", "000%s", " %s", "%s ", " 0%s\n"}[w.n(5)], v)
			}
		case "time":
			sec, _ := strconv.ParseInt(v, 10, 64)
			off := 0
			if w.st.Zone {
				off = []int{0, 60, -300, 330, 14 * 60, -12 * 60, 1}[w.n(7)]
			}
			v = ref.Instant(sec).Format(off)
			if w.st.Zone && w.n(3) == 0 {
				v = v[:19] + []string{".0", ".000", ".000000000"}[w.n(3)] + v[19:]
			}
		}
		as = append(as, at{a.Name, v})
	}
	if w.st.Foreign && w.n(3) == 0 {
		as = append(as, at{"xmlns:z", "urn:z"}, at{"z:note", "5"})
	}
	if w.st.Shuffle {
		for i := len(as) - 1; i > 0; i-- {
			j := w.n(i + 1)
			as[i], as[j] = as[j], as[i]
		}
	}
	for _, a := range as {
		w.attr(a.n, a.v)
	}
	kids := n.Kids
	// the schema lets Ext come first in everything but plain text
	ext := w.st.Ext && n.Name != "SegmentationUpid" && n.Name != "PrivateBytes" && !n.NoSpace && w.n(3) == 0
	if len(kids) == 0 && n.Text == "" && !ext && w.n(2) == 0 {
		if w.st.Space {
			w.sb.WriteString(" ")
		}
		w.sb.WriteString("/>")
		return
	}
	w.sb.WriteString(">")
	if ext {
		p := prefix
		if p != "" {
			p += ":"
		}
		w.gap()
		e := extBodies[w.n(len(extBodies))]
		if strings.Contains(e, "%[1]s") {
			w.sb.WriteString(fmt.Sprintf(e, p))
		} else {
			w.sb.WriteString(fmt.Sprintf(e, p))
		}
	}
	for _, k := range kids {
		w.elem(k, depth+1)
	}
	switch {
	case n.NoSpace:
		w.sb.WriteString(n.Text)
	case n.Text != "":
		if w.st.Space {
			w.sb.WriteString([]string{"", " ", "\n\t\t"}[w.n(3)])
		}
		w.text(n.Text)
		if w.st.Space {
			w.sb.WriteString([]string{"", " ", "\n\t\t"}[w.n(3)])
		}
	case len(kids) > 0 || n.Name != "SegmentationUpid":
		w.gap()
	}
	w.sb.WriteString("</" + name + ">")
}

func (w *xwriter) text(s string) {
	if w.st.CDATA && !strings.Contains(s, "]]>") && plainText(s) && w.n(2) == 0 {
		rs := []rune(s)
		k := w.n(len(rs) + 1)
		w.esc(string(rs[:k]), 0)
		w.sb.WriteString("<![CDATA[" + string(rs[k:]) + "]]>")
		return
	}
	rs := []rune(s)
	if w.st.Comments && w.n(3) == 0 {
		k := w.n(len(rs) + 1)
		w.esc(string(rs[:k]), 0)
		w.sb.WriteString("<!-- inside -->")
		rs = rs[k:]
	}
	w.esc(string(rs), 0)
}

func plainText(s string) bool {
	for _, r := range s {
		if r < 0x20 {
			return false
		}
	}
	return true
}

// spell writes the document.
func (st xstyle) spell(n *ref.Node) []byte {
	w := &xwriter{st: st, rng: st.Seed}
	if st.Decl && !st.Wrap {
		w.sb.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	if st.Wrap {
		w.sb.WriteString(`<w:Signal xmlns:w="urn:wrap" tier="1">`)
	}
	w.elem(n, 0)
	if st.Wrap {
		w.sb.WriteString("</w:Signal>")
	} else if st.Space {
		w.sb.WriteString("\n")
	}
	return []byte(w.sb.String())
}

// ---- reading

// xelem is an element of a document as it is.
type xelem struct {
	space, name string
	attrs       map[string]string
	kids        []*xelem
	text        string
}

// readXML reads a document.
func readXML(b []byte) (*xelem, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	var stack []*xelem
	root := &xelem{}
	stack = append(stack, root)
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		top := stack[len(stack)-1]
		switch t := tok.(type) {
		case xml.StartElement:
			e := &xelem{space: t.Name.Space, name: t.Name.Local, attrs: map[string]string{}}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
					continue
				}
				n := a.Name.Local
				if a.Name.Space != "" {
					n = a.Name.Space + " " + n
				}
				if _, dup := e.attrs[n]; dup {
					return nil, fmt.Errorf("attribute %s twice", n)
				}
				e.attrs[n] = a.Value
			}
			top.kids = append(top.kids, e)
			stack = append(stack, e)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.text += string(t)
		}
	}
	if len(root.kids) != 1 {
		return nil, fmt.Errorf("%d root elements", len(root.kids))
	}
	return root.kids[0], nil
}

// cmpXML compares a document with what it must be.
func cmpXML(got *xelem, want *ref.Node, path string) error {
	path += "/" + want.Name
	if got.space != scteNS || got.name != want.Name {
		return fail("%s: element {%s}%s", path, got.space, got.name)
	}
	seen := map[string]bool{}
	for _, a := range want.Attrs {
		seen[a.Name] = true
		v, ok := got.attrs[a.Name]
		if !ok {
			if (a.Opt != "" && a.Opt == a.Val) || (a.Default != "" && a.Default == a.Val && a.Name != "sapType") {
				continue
			}
			return fail("%s: attribute %s is missing, want %s", path, a.Name, a.Val)
		}
		switch a.Kind {
		case "int", "text":
			if v != a.Val {
				return fail("%s: attribute %s is %q, want %q", path, a.Name, v, a.Val)
			}
		case "bool":
			if v == "1" {
				v = "true"
			} else if v == "0" {
				v = "false"
			}
			if v != a.Val {
				return fail("%s: attribute %s is %q, want %s", path, a.Name, v, a.Val)
			}
		case "time":
			t, err := time.Parse(time.RFC3339Nano, v)
			if err != nil || t.Nanosecond() != 0 || fmt.Sprint(t.Unix()) != a.Val {
				return fail("%s: attribute %s is %q, want the instant %s s after 1970", path, a.Name, v, a.Val)
			}
		}
	}
	var extra []string
	for n := range got.attrs {
		if !seen[n] {
			extra = append(extra, n)
		}
	}
	if len(extra) > 0 {
		sort.Strings(extra)
		return fail("%s: unexpected attribute %s=%q", path, extra[0], got.attrs[extra[0]])
	}
	text := got.text
	if len(want.Kids) > 0 || want.Text == "" {
		text = strings.TrimSpace(text)
	}
	if strings.Trim(text, " \t\r\n") != strings.Trim(want.Text, " \t\r\n") {
		return fail("%s: text %q, want %q", path, text, want.Text)
	}
	k := 0
	for _, w := range want.Kids {
		if k < len(got.kids) && got.kids[k].name == w.Name {
			if err := cmpXML(got.kids[k], w, path); err != nil {
				return err
			}
			k++
			continue
		}
		if w.OptEmpty {
			continue
		}
		if k < len(got.kids) {
			return fail("%s: child %d is %s, want %s", path, k, got.kids[k].name, w.Name)
		}
		return fail("%s: child %s is missing", path, w.Name)
	}
	if k < len(got.kids) {
		return fail("%s: unexpected child %s", path, got.kids[k].name)
	}
	return nil
}
