package checks

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// A place is one public part of a section that can be changed in place: a
// number, text, time or flag, a pointer or a list.
type place struct {
	path string
	v    reflect.Value
}

// places lists every public part of a section.
func places(sis *scte35.SpliceInfoSection) []place {
	var out []place
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path)
			}
		case reflect.Pointer:
			if v.CanSet() {
				out = append(out, place{path, v})
			}
			if !v.IsNil() {
				walk(v.Elem(), path+".*")
			}
		case reflect.Struct:
			if v.Type() == timeType {
				if v.CanSet() {
					out = append(out, place{path, v})
				}
				return
			}
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if f.IsExported() && f.Name != "JSONType" && f.Name != "XMLName" {
					walk(v.Field(i), path+"."+f.Name)
				}
			}
		case reflect.Slice:
			if v.CanSet() {
				out = append(out, place{path, v})
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		default:
			if v.CanSet() {
				out = append(out, place{path, v})
			}
		}
	}
	walk(reflect.ValueOf(sis).Elem(), "")
	return out
}

// show writes the value of a place, without what has places of its own.
func (p place) show() string {
	switch p.v.Kind() {
	case reflect.Pointer:
		return fmt.Sprint("nil ", p.v.IsNil())
	case reflect.Slice:
		return fmt.Sprint("length ", p.v.Len())
	}
	if p.v.Type() == timeType {
		return fmt.Sprint(p.v.Interface().(time.Time).UnixNano())
	}
	return fmt.Sprintf("%v", p.v.Interface())
}

// change changes the value in a place, in a way drawn beforehand.
func (p place) change(how, by int) {
	v := p.v
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Uint8:
		v.SetUint(v.Uint() ^ uint64(1<<(by%8)))
	case reflect.Uint32, reflect.Uint64:
		switch how % 4 {
		case 0, 1:
			v.SetUint(v.Uint() ^ uint64(1+by%7))
		case 2:
			v.SetUint(uint64(by))
		case 3:
			v.SetUint(v.Uint() ^ uint64(1)<<(by%v.Type().Bits()))
		}
	case reflect.String:
		s := []rune(v.String())
		switch {
		case how%4 == 0 || len(s) == 0:
			s = append(s, rune('0'+by%10))
		case how%4 == 1:
			s = s[:len(s)-1]
		default:
			s[by%len(s)] ^= rune(1 + by%3)
		}
		v.SetString(string(s))
	case reflect.Struct: // time
		v.Set(reflect.ValueOf(v.Interface().(time.Time).Add(time.Duration(by+1) * time.Second)))
	case reflect.Pointer:
		if !v.IsNil() && how%3 == 0 {
			v.SetZero()
			return
		}
		n := reflect.New(v.Type().Elem())
		if k := n.Elem().Kind(); k == reflect.Uint32 || k == reflect.Uint64 {
			n.Elem().SetUint(uint64(by))
		} else if !v.IsNil() {
			n.Elem().Set(v.Elem())
		}
		v.Set(n)
	case reflect.Slice:
		n := v.Len()
		switch {
		case how%5 == 0 && n > 0: // one less
			v.Set(v.Slice(0, n-1))
		case how%5 == 1 && n > 0: // one less, at the front
			v.Set(v.Slice(1, n))
		case how%5 == 2 && n > 1: // two change places
			a, b := v.Index(by%n), v.Index((by/7)%n)
			t := reflect.New(v.Type().Elem()).Elem()
			t.Set(a)
			a.Set(b)
			b.Set(t)
		case how%5 == 3:
			v.SetZero()
		case v.Type().Elem().Kind() != reflect.Interface:
			v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
		default:
			v.Set(reflect.Append(v, reflect.ValueOf(&scte35.AvailDescriptor{ProviderAvailID: uint32(by)})))
		}
	}
}

// copyPublic copies every public part, pointers followed, and nothing else.
func copyPublic(to, from reflect.Value) {
	switch from.Kind() {
	case reflect.Interface:
		if !from.IsNil() {
			p := reflect.New(from.Elem().Type()).Elem()
			copyPublic(p, from.Elem())
			to.Set(p)
		}
	case reflect.Pointer:
		if !from.IsNil() {
			p := reflect.New(from.Type().Elem())
			copyPublic(p.Elem(), from.Elem())
			to.Set(p)
		}
	case reflect.Struct:
		if from.Type() == timeType {
			to.Set(from)
			return
		}
		for i := 0; i < from.NumField(); i++ {
			if from.Type().Field(i).IsExported() {
				copyPublic(to.Field(i), from.Field(i))
			}
		}
	case reflect.Slice:
		if !from.IsNil() {
			s := reflect.MakeSlice(from.Type(), from.Len(), from.Len())
			for i := 0; i < from.Len(); i++ {
				copyPublic(s.Index(i), from.Index(i))
			}
			to.Set(s)
		}
	default:
		to.Set(from)
	}
}

// tweak is a change in one place: the place is found by what it is, then by
// its position among those.
type tweak struct {
	Kind int `json:"kind"`
	At   int `json:"at"`
	How  int `json:"how"`
	By   int `json:"by"`
}

func genTweak(t *rapid.T) tweak {
	return tweak{gen.N(t, 0, 1<<16), gen.N(t, 0, 1<<16), gen.N(t, 0, 59), gen.N(t, 0, 300)}
}

var indexes = regexp.MustCompile(`\[\d+\]`)

func (w tweak) find(l []place) place {
	byKind := map[string][]place{}
	for _, p := range l {
		k := indexes.ReplaceAllString(p.path, "[]") + p.v.Kind().String()
		byKind[k] = append(byKind[k], p)
	}
	var kinds []string
	for k := range byKind {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	g := byKind[kinds[w.Kind%len(kinds)]]
	return g[w.At%len(g)]
}

func (w tweak) do(sis *scte35.SpliceInfoSection) place {
	p := w.find(places(sis))
	p.change(w.How, w.By)
	return p
}

// leafCase is a section that is looked at, changed in one place, looked at
// again, and so on.
type leafCase struct {
	H      histCase `json:"h"`
	Tweaks []tweak  `json:"tweaks"`
}

func genLeaf(t *rapid.T) leafCase {
	c := leafCase{H: histCase{Via: pick(t, []string{"decode", "decode", "built", "json", "xml"})}}
	if c.H.Via == "decode" && gen.P(t, 15) {
		c.H.Data = anyBytes(t)
	} else {
		s := gen.Section(t, gen.Cfg{Encrypt: true, NoBulk: true, PreRoll: true, Doc: c.H.Via != "built", WireUPID: c.H.Via == "decode"})
		if c.H.Via == "decode" {
			c.H.Data = s.Canonical()
		} else {
			c.H.S = s
		}
	}
	for n := gen.N(t, 1, 4); n > 0; n-- {
		c.Tweaks = append(c.Tweaks, genTweak(t))
	}
	return c
}

// tried calls everything that reads a section; ok is false if that panics, as
// it may after a change that makes no sense.
func tried(sis *scte35.SpliceInfoSection) (out map[string]string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	return observe(sis), true
}

func checkLeaves(c leafCase, o *core.Obs) error {
	o.Label("section from " + c.H.Via)
	a := c.H.make()
	stuffed := false // what has no public field does not get copied
	if c.H.Via == "decode" {
		r := ref.Decode(c.H.Data)
		stuffed = r.Sec == nil || r.Err != ref.OK || len(r.Sec.Stuff) > 0
	}
	if _, ok := tried(a); !ok {
		return nil
	}
	for i, w := range c.Tweaks {
		before := map[string]string{}
		for _, p := range places(a) {
			before[p.path+p.v.Kind().String()] = p.show()
		}
		p := w.do(a)
		kind := indexes.ReplaceAllString(p.path, "[]")
		o.Label("changed " + kind)
		for _, q := range places(a) {
			was, ok := before[q.path+q.v.Kind().String()]
			inside := strings.HasPrefix(q.path, p.path) && (p.v.Kind() == reflect.Pointer || p.v.Kind() == reflect.Slice)
			if ok && q.path != p.path && !inside && q.show() != was {
				return fail("tweak %d: changing %s changed %s from %s to %s as well", i, p.path, q.path, was, q.show())
			}
		}
		// the same changes in a section nothing looked at
		b := c.H.make()
		for _, v := range c.Tweaks[:i+1] {
			v.do(b)
		}
		want, ok := tried(b)
		if !ok {
			o.Label("beyond what the library takes")
			return nil
		}
		o.NonTrivial()
		o.Evals(1)
		if g, w := dump(a), dump(b); g != w {
			return fail("tweak %d, of %s: a section that was looked at is now\n%s\none that was not is\n%s", i, p.path, g, w)
		}
		got := observe(a)
		if err := sameObservations(got, want); err != nil {
			return fail("tweak %d, of %s: having been looked at before, the section gives something else: %v", i, p.path, err)
		}
		if !stuffed {
			f := &scte35.SpliceInfoSection{}
			copyPublic(reflect.ValueOf(f).Elem(), reflect.ValueOf(a).Elem())
			if err := sameObservations(got, observe(f)); err != nil {
				return fail("tweak %d, of %s: the section gives something else than one with the same public fields: %v", i, p.path, err)
			}
		}
	}
	return nil
}
