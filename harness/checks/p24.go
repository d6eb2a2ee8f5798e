package checks

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"

	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// step is one thing a goroutine does with its own section.
type step struct {
	Do string `json:"do"` // load, look, edit, text, upid, time
	K  int    `json:"k"`  // which input, observer, number
}

// parCase is what several goroutines do.  They share the inputs, which
// nobody writes to, and nothing else.
type parCase struct {
	Inputs []load   `json:"inputs"`
	Progs  [][]step `json:"progs"`
	Rounds int      `json:"rounds"`
}

func genPar(t *rapid.T) parCase {
	c := parCase{Rounds: gen.N(t, 1, 3)}
	for n := gen.N(t, 1, 3); n > 0; n-- {
		l := genLoad(t)
		c.Inputs = append(c.Inputs, l)
	}
	// often everybody does the same thing at the same time
	same := gen.P(t, 40)
	for n := gen.N(t, 2, 8); n > 0; n-- {
		if same && len(c.Progs) > 0 {
			c.Progs = append(c.Progs, c.Progs[0])
			continue
		}
		p := []step{{"load", gen.N(t, 0, len(c.Inputs)-1)}}
		for k := gen.N(t, 1, 10); k > 0; k-- {
			s := step{Do: pick(t, []string{"look", "look", "look", "look", "load", "edit", "text", "upid", "time"})}
			switch s.Do {
			case "look":
				s.K = gen.N(t, 0, len(observers)-1)
			case "load":
				s.K = gen.N(t, 0, len(c.Inputs)-1)
			case "upid":
				s.K = gen.N(t, 0, 17)
			case "time":
				s.K = gen.N(t, 0, 1<<30)
			}
			p = append(p, s)
		}
		c.Progs = append(c.Progs, p)
	}
	return c
}

// genFirst is a case for a fresh process: what the goroutines do is the first
// the process does, and they do a lot of it, mostly all the same.
func genFirst(t *rapid.T) parCase {
	c := parCase{Rounds: 1}
	for n := gen.N(t, 2, 5); n > 0; n-- {
		c.Inputs = append(c.Inputs, genLoad(t))
	}
	c.Inputs = append(c.Inputs, load{Kind: "decode", Data: gen.Section(t, gen.Cfg{NoBulk: true, Kinds: []string{ref.Seg, ref.Seg, ref.Audio, ref.DTMF}}).Canonical()})
	for n := gen.N(t, 2, 8); n > 0; n-- {
		if len(c.Progs) > 0 && gen.P(t, 70) {
			c.Progs = append(c.Progs, c.Progs[0])
			continue
		}
		var p []step
		for _, i := range perm(t, len(c.Inputs)) {
			p = append(p, step{"load", i})
			for k := gen.N(t, 1, 4); k > 0; k-- {
				p = append(p, step{"look", gen.N(t, 0, len(observers)-1)})
			}
			switch gen.N(t, 0, 4) {
			case 0:
				p = append(p, step{"text", 0})
			case 1:
				p = append(p, step{"upid", gen.N(t, 0, 17)})
			case 2:
				p = append(p, step{"time", gen.N(t, 0, 1<<30)})
			}
		}
		c.Progs = append(c.Progs, p)
	}
	return c
}

func perm(t *rapid.T, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := gen.N(t, 0, i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// checkFirst runs the case in a process that has done nothing before.
func checkFirst(c parCase, o *core.Obs) error {
	o.NonTrivial()
	o.Evals(len(c.Progs))
	o.Label("fresh process")
	return core.Fresh("P24", "goroutines", c)
}

// play runs one program and tells everything it saw.
func (c *parCase) play(p []step) (out string) {
	var sb strings.Builder
	defer func() {
		if r := recover(); r != nil {
			out = sb.String() + fmt.Sprintf("panic: %v", r)
		}
	}()
	sis := &scte35.SpliceInfoSection{}
	for _, s := range p {
		switch s.Do {
		case "load":
			l := &c.Inputs[s.K]
			var err error
			if l.Kind == "decode" {
				err = sis.Decode(l.Data) // all from one buffer
			} else {
				err = l.do(sis)
			}
			fmt.Fprintf(&sb, "load %v %s\n", err, dump(sis))
		case "look":
			fmt.Fprintf(&sb, "%s %q\n", observers[s.K].name, observers[s.K].f(sis))
		case "edit":
			spoil(reflect.ValueOf(sis))
			fmt.Fprintf(&sb, "edit %s\n", dump(sis))
		case "text":
			a, e1 := scte35.DecodeBase64(sis.Base64())
			b, e2 := scte35.DecodeHex(sis.Hex())
			fmt.Fprintf(&sb, "text %v %s %v %s\n", e1, dump(a), e2, dump(b))
		case "upid":
			raw := []byte{byte(s.K), 'a', '/', 0xE9, 4, 5, 6, 7, 8, 9, 10, 11}
			u := scte35.NewSegmentationUPID(uint32(s.K), raw)
			fmt.Fprintf(&sb, "upid %s %s %q\n", dump(&u), u.Name(), u.ASCIIValue())
		case "time":
			d := scte35.TicksToDuration(uint64(s.K))
			u := scte35.NewUTCSpliceTime(uint32(s.K))
			fmt.Fprintf(&sb, "time %v %d %d %s\n", d, scte35.DurationToTicks(d+time.Duration(s.K)), u.GPSSeconds(), u.UTC())
		}
	}
	return sb.String()
}

func checkPar(c parCase, o *core.Obs) error {
	if len(c.Progs) > 1 {
		o.NonTrivial()
	}
	o.Evals(c.Rounds * len(c.Progs))
	o.Label(fmt.Sprintf("%d goroutines", len(c.Progs)))
	for _, l := range c.Inputs {
		o.Label("input " + l.Kind)
	}
	before := fmt.Sprint(c.Inputs)
	got := make([][]string, c.Rounds)
	for r := range got {
		got[r] = make([]string, len(c.Progs))
		together(len(c.Progs), func(i int) { got[r][i] = c.play(c.Progs[i]) })
	}
	if fmt.Sprint(c.Inputs) != before {
		return fail("an input was written to")
	}
	// alone, afterwards: whatever is set up on first use was set up above
	for i := range c.Progs {
		want := c.play(c.Progs[i])
		for r := range got {
			if got[r][i] != want {
				g, w := strings.Split(got[r][i], "\n"), strings.Split(want, "\n")
				for k := range w {
					if k >= len(g) || g[k] != w[k] {
						return fail("goroutine %d, step %d differs from what it gives alone:\n got %s\nwant %s", i, k, at(g, k), w[k])
					}
				}
				return fail("goroutine %d gives more than alone:\n%s", i, got[r][i])
			}
		}
	}
	return nil
}

// together runs f in n goroutines that start at the same moment.
func together(n int, f func(i int)) {
	var ready atomic.Int32
	var wg sync.WaitGroup
	for i := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Add(1)
			for k := 0; ready.Load() < int32(n); k++ {
				if k > 2000 {
					runtime.Gosched()
				}
			}
			f(i)
		}()
	}
	wg.Wait()
}

// hammerCase is one small thing done over and over by every goroutine, each
// with a section or number of its own.
type hammerCase struct {
	Inputs []load `json:"inputs"`
	Do     string `json:"do"` // load, look, name, upid, value, time, text
	K      int    `json:"k"`
	Nums   []int  `json:"nums"` // one per goroutine
	Reps   int    `json:"reps"`
}

func genHammer(t *rapid.T) hammerCase {
	c := hammerCase{Do: pick(t, []string{"load", "load", "load", "look", "look", "look", "look", "name", "name", "upid", "upid", "value", "time", "text"}), Reps: gen.N(t, 20, 400)}
	n := gen.N(t, 2, 8)
	kind := gen.N(t, 0, 2)
	for range n {
		c.Nums = append(c.Nums, gen.N(t, 0, 1<<30))
		if len(c.Inputs) > 0 && gen.P(t, 15) {
			c.Inputs = append(c.Inputs, c.Inputs[0])
			continue
		}
		l := load{Kind: []string{"decode", "json", "xml"}[kind]}
		cfg := gen.Cfg{NoBulk: true, Doc: true}
		if gen.P(t, 60) {
			cfg.Kinds = []string{ref.Seg, ref.Seg, ref.Audio, ref.Private}
		}
		s := gen.Section(t, cfg)
		switch l.Kind {
		case "decode":
			l.Data = s.Canonical()
		case "json":
			l.Data, _ = json.Marshal(api.Section(s))
		default:
			l.Data, _ = xml.Marshal(api.Section(s))
		}
		c.Inputs = append(c.Inputs, l)
	}
	if c.Do == "look" {
		c.K = gen.N(t, 0, len(observers)-1)
	}
	return c
}

// job gives what goroutine i does again and again.
func (c *hammerCase) job(i int) func() string {
	l := &c.Inputs[i]
	n := c.Nums[i]
	switch c.Do {
	case "load":
		return func() string {
			sis := &scte35.SpliceInfoSection{}
			err := l.do(sis)
			if err != nil {
				return err.Error()
			}
			return api.Join(sis)
		}
	case "name":
		sd := &scte35.SegmentationDescriptor{SegmentationTypeID: uint32(n) % 0x52}
		u := &scte35.SegmentationUPID{Type: uint32(n) % 20}
		return func() string { return sd.Name() + u.Name() }
	case "upid":
		raw := []byte{byte(n), 'a', '/', byte(n >> 8), byte(n >> 16), 5, 6, 7, 8, 9, 10, 11}
		typ := uint32(n) % 18
		return func() string {
			u := scte35.NewSegmentationUPID(typ, raw)
			return u.Value
		}
	case "value":
		u := scte35.NewSegmentationUPID(uint32(n)%18, []byte{byte(n), 'a', '/', byte(n >> 8), byte(n >> 16), 5, 6, 7, 8, 9, 10, 11})
		return u.ASCIIValue
	case "time":
		return func() string {
			u := scte35.NewUTCSpliceTime(uint32(n))
			return fmt.Sprint(scte35.TicksToDuration(uint64(n)), scte35.DurationToTicks(time.Duration(n)), u.GPSSeconds())
		}
	}
	sis := &scte35.SpliceInfoSection{}
	_ = l.do(sis)
	if c.Do == "text" {
		h := sis.Hex()
		return func() string {
			x, err := scte35.DecodeHex(h)
			if err != nil {
				return err.Error()
			}
			return x.Base64()
		}
	}
	f := observers[c.K].f
	return func() string { return f(sis) }
}

func checkHammer(c hammerCase, o *core.Obs) error {
	o.NonTrivial()
	o.Label("hammer " + c.Do)
	first := make([]string, len(c.Nums))
	other := make([]string, len(c.Nums))
	reps := make([]int, len(c.Nums))
	jobs := make([]func() string, len(c.Nums))
	for i := range jobs {
		jobs[i] = c.job(i)
	}
	end := time.Now().Add(30 * time.Millisecond)
	together(len(c.Nums), func(i int) {
		defer func() {
			if r := recover(); r != nil {
				other[i] = fmt.Sprintf("panic: %v", r)
			}
		}()
		f := jobs[i]
		first[i] = f()
		for reps[i] = 1; reps[i] < c.Reps && time.Now().Before(end); reps[i]++ {
			if again := f(); again != first[i] {
				other[i] = again
				return
			}
		}
	})
	for i := range c.Nums {
		o.Evals(reps[i])
		if other[i] != "" {
			return fail("goroutine %d, %s: once gives\n%s\nand then\n%s", i, c.Do, first[i], other[i])
		}
		if want := c.job(i)(); first[i] != want {
			return fail("goroutine %d, %s: gives\n%s\nand alone\n%s", i, c.Do, first[i], want)
		}
	}
	return nil
}

func at(l []string, k int) string {
	if k < len(l) {
		return l[k]
	}
	return "nothing"
}

// smallerPar proposes smaller cases, for a failure that ends the process.
func smallerPar(sub string, raw []byte) [][]byte {
	var c parCase
	if sub == "over and over" || json.Unmarshal(raw, &c) != nil {
		return nil
	}
	var out [][]byte
	add := func(k parCase) {
		b, err := json.Marshal(k)
		if err == nil {
			out = append(out, b)
		}
	}
	if len(c.Progs) > 2 {
		for i := range c.Progs {
			k := c
			k.Progs = append(append([][]step{}, c.Progs[:i]...), c.Progs[i+1:]...)
			add(k)
		}
	}
	for i, p := range c.Progs {
		for j := len(p) - 1; j >= 0 && len(p) > 1; j-- {
			k := c
			k.Progs = append([][]step{}, c.Progs...)
			k.Progs[i] = append(append([]step{}, p[:j]...), p[j+1:]...)
			add(k)
		}
	}
	for i := range c.Inputs {
		if len(c.Inputs[i].Data) == 0 {
			continue
		}
		k := c
		k.Inputs = append([]load{}, c.Inputs...)
		k.Inputs[i].Data = ref.Hex{}
		add(k)
	}
	return out
}

func init() {
	first := core.New("first use", 400, 6000, genFirst, checkFirst)
	first.MinShard = 40
	hammer := core.New("over and over", 3000, 60000, genHammer, checkHammer)
	core.Register(&core.Prop{
		ID:    "P24",
		Boost: 1.5,
		Rule:  "a case is non-trivial if at least two goroutines run",
		Assumptions: []string{"schedules are those the Go scheduler takes, under the race detector",
			"one section is not used from several goroutines at once"},
		Procs:   8,
		Smaller: smallerPar,
		Subs: []*core.Sub{
			core.New("goroutines", 6000, 100000, genPar, checkPar),
			first,
			hammer,
		},
	})
}
