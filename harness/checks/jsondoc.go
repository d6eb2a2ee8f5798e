package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
)

// jstyle is a way of spelling a JSON document.
type jstyle struct {
	Seed    uint64 `json:"seed"`
	Space   bool   `json:"space,omitempty"`
	Shuffle bool   `json:"shuffle,omitempty"`
	Unknown bool   `json:"unknown,omitempty"` // members nobody knows
	Drop    bool   `json:"drop,omitempty"`    // leave out zero members
	Null    bool   `json:"null,omitempty"`    // null for absent parts
	Esc     bool   `json:"esc,omitempty"`     // \u escapes
	Zone    bool   `json:"zone,omitempty"`
	Upper   bool   `json:"upper,omitempty"` // upper-case hexadecimal
	Wrap    bool   `json:"wrap,omitempty"`
	CUEI    bool   `json:"cuei,omitempty"` // identifier given for SCTE descriptors too
}

func genJStyle(t *rapid.T) jstyle {
	st := jstyle{Seed: uint64(gen.N(t, 0, 1<<20))}
	for _, p := range []*bool{&st.Space, &st.Shuffle, &st.Unknown, &st.Drop, &st.Null, &st.Esc, &st.Zone, &st.Upper, &st.Wrap, &st.CUEI} {
		*p = gen.P(t, 40)
	}
	return st
}

type jwriter struct {
	st jstyle
	xw xwriter // for its numbers
	sb strings.Builder
}

func (w *jwriter) n(k int) int { return w.xw.n(k) }

func (w *jwriter) gap() {
	if w.st.Space {
		w.sb.WriteString([]string{"", " ", "\n\t", "\r\n"}[w.n(4)])
	}
}

func (w *jwriter) str(s string) {
	w.sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			w.sb.WriteString("\\" + string(r))
		case r < 0x20 || (w.st.Esc && w.n(3) == 0):
			fmt.Fprintf(&w.sb, []string{"\\u%04x", "\\u%04X"}[w.n(2)], r)
		case r == '/' && w.st.Esc && w.n(2) == 0:
			w.sb.WriteString("\\/")
		default:
			w.sb.WriteRune(r)
		}
	}
	w.sb.WriteByte('"')
}

func zero(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case uint64:
		return x == 0
	case bool:
		return !x
	case string:
		return x == ""
	case []any:
		return len(x) == 0
	case *ref.Obj:
		for i, k := range x.Vals {
			if x.Must[x.Names[i]] || !zero(k) {
				return false
			}
		}
		return true
	}
	return false
}

var unknownMembers = []string{`"x-note":"hello"`, `"comment":{"type":7,"tier":[1,2,{"a":null}]}`, `"zzz":[]`, `"":0`, `"vendor":-1.5e3`, `"note":true`}

func (w *jwriter) val(v any, name string) {
	switch x := v.(type) {
	case nil:
		w.sb.WriteString("null")
	case json.RawMessage:
		w.sb.Write(x)
	case uint64:
		w.sb.WriteString(strconv.FormatUint(x, 10))
	case bool:
		w.sb.WriteString(strconv.FormatBool(x))
	case string:
		if name == "privateBytes" && w.st.Upper {
			x = strings.ToUpper(x)
		}
		w.str(x)
	case ref.Instant:
		off := 0
		if w.st.Zone {
			off = []int{0, 60, -300, 330, 14 * 60, -12 * 60, 1}[w.n(7)]
		}
		s := x.Format(off)
		if w.st.Zone && w.n(3) == 0 {
			s = s[:19] + ".000" + s[19:]
		}
		w.sb.WriteString(`"` + s + `"`) // never escaped: package time does not undo escapes
	case []any:
		w.sb.WriteByte('[')
		for i, k := range x {
			if i > 0 {
				w.sb.WriteByte(',')
			}
			w.gap()
			w.val(k, name)
			w.gap()
		}
		w.sb.WriteByte(']')
	case *ref.Obj:
		type mem struct {
			name string
			v    any
		}
		var ms []mem
		for i, n := range x.Names {
			v := x.Vals[i]
			if v == nil && !(w.st.Null && w.n(2) == 0) {
				continue
			}
			if v != nil && w.st.Drop && zero(v) && w.n(2) == 0 && (!x.Must[n] || n == "sapType" && v == uint64(3)) {
				continue
			}
			if w.st.Drop && n == "sapType" && v == uint64(3) && w.n(2) == 0 {
				continue
			}
			ms = append(ms, mem{n, v})
		}
		if w.st.CUEI && name == "spliceDescriptors" && !x.Must["identifier"] {
			ms = append(ms, mem{"identifier", uint64(ref.CUEI)})
		}
		if w.st.Shuffle {
			for i := len(ms) - 1; i > 0; i-- {
				j := w.n(i + 1)
				ms[i], ms[j] = ms[j], ms[i]
			}
		}
		w.sb.WriteByte('{')
		first := true
		sep := func() {
			if !first {
				w.sb.WriteByte(',')
			}
			first = false
			w.gap()
		}
		for _, m := range ms {
			if w.st.Unknown && w.n(4) == 0 {
				sep()
				w.sb.WriteString(unknownMembers[w.n(len(unknownMembers))])
				w.gap()
			}
			sep()
			w.str(m.name)
			w.gap()
			w.sb.WriteByte(':')
			w.gap()
			w.val(m.v, m.name)
			w.gap()
		}
		if w.st.Unknown && w.n(3) == 0 {
			sep()
			w.sb.WriteString(unknownMembers[w.n(len(unknownMembers))])
		}
		w.gap()
		w.sb.WriteByte('}')
	}
}

func (st jstyle) spell(o *ref.Obj) []byte {
	w := &jwriter{st: st}
	w.xw.rng = st.Seed
	w.gap()
	if st.Wrap {
		w.sb.WriteString(`[`)
	}
	w.val(o, "")
	if st.Wrap {
		w.sb.WriteString(`]`)
	}
	w.gap()
	return []byte(w.sb.String())
}

// readJSON reads a document generically; members given twice are an error.
func readJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := readValue(d)
	if err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fail("more than one value")
	}
	return v, nil
}

func readValue(d *json.Decoder) (any, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch tok {
	case json.Delim('{'):
		m := map[string]any{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			if _, dup := m[k.(string)]; dup {
				return nil, fail("member %v twice", k)
			}
			if m[k.(string)], err = readValue(d); err != nil {
				return nil, err
			}
		}
		_, err := d.Token()
		return m, err
	case json.Delim('['):
		l := []any{}
		for d.More() {
			v, err := readValue(d)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		_, err := d.Token()
		return l, err
	}
	return tok, nil
}

// emptyValue tells whether a value says nothing.
func emptyValue(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case map[string]any:
		for _, k := range x {
			if !emptyValue(k) {
				return false
			}
		}
		return true
	case []any:
		return len(x) == 0
	}
	return false
}

// cmpJSON compares a document with what it must be.
func cmpJSON(got, want any, path string) error {
	switch w := want.(type) {
	case nil:
		if !emptyValue(got) {
			return fail("%s is %v, want nothing", path, got)
		}
	case uint64:
		n, ok := got.(json.Number)
		if !ok || n.String() != strconv.FormatUint(w, 10) {
			return fail("%s is %v (%T), want %d", path, got, got, w)
		}
	case bool:
		if b, ok := got.(bool); !ok || b != w {
			return fail("%s is %v (%T), want %v", path, got, got, w)
		}
	case string:
		if s, ok := got.(string); !ok || s != w {
			return fail("%s is %q (%T), want %q", path, got, got, w)
		}
	case ref.Instant:
		s, _ := got.(string)
		t, err := time.Parse(time.RFC3339Nano, s)
		if err != nil || t.Nanosecond() != 0 || t.Unix() != int64(w) {
			return fail("%s is %v, want the instant %s", path, got, w.Format(0))
		}
	case []any:
		if len(w) == 0 {
			if !emptyValue(got) {
				return fail("%s is %v, want nothing", path, got)
			}
			return nil
		}
		l, ok := got.([]any)
		if !ok {
			return fail("%s is a %T, want a list", path, got)
		}
		if len(l) != len(w) {
			return fail("%s has %d elements, want %d", path, len(l), len(w))
		}
		for i := range w {
			if err := cmpJSON(l[i], w[i], fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	case *ref.Obj:
		m, ok := got.(map[string]any)
		if !ok {
			return fail("%s is a %T, want an object", path, got)
		}
		seen := map[string]bool{}
		for i, n := range w.Names {
			seen[n] = true
			v, ok := m[n]
			if !ok || v == nil {
				if w.Must[n] || !zero(w.Vals[i]) {
					return fail("%s.%s is missing", path, n)
				}
				continue
			}
			if err := cmpJSON(v, w.Vals[i], path+"."+n); err != nil {
				return err
			}
		}
		var extra []string
		for n, v := range m {
			if !seen[n] && !emptyValue(v) {
				extra = append(extra, n)
			}
		}
		if len(extra) > 0 {
			sort.Strings(extra)
			return fail("%s has an unexpected member %s: %v", path, extra[0], m[extra[0]])
		}
	}
	return nil
}
