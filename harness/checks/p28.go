package checks

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// wordCase is something done with the library, here and on a platform of
// another word size.
type wordCase struct {
	Par  *parCase    `json:"par,omitempty"`  // a history
	Odd  *oddCase    `json:"odd,omitempty"`  // a section with values that need not make sense
	Hist *histCase   `json:"hist,omitempty"` // a section, looked at
	Doc  *badDoc     `json:"doc,omitempty"`  // a document that has something wrong
	Nums *numberCase `json:"nums,omitempty"`
}

type numberCase struct {
	A    uint64  `json:"a"`
	D    int64   `json:"d"`
	G    uint32  `json:"g"`
	T    uint32  `json:"t"`
	Raw  ref.Hex `json:"raw"`
	Text string  `json:"text"`
}

func (c *wordCase) play() (out string) {
	defer func() {
		if recover() != nil {
			out = "panic"
		}
	}()
	var sb strings.Builder
	look := func(sis *scte35.SpliceInfoSection) {
		fmt.Fprintln(&sb, dump(sis))
		for _, ob := range observers {
			fmt.Fprintf(&sb, "%s %q\n", ob.name, ob.f(sis))
		}
	}
	switch {
	case c.Par != nil:
		return c.Par.play(c.Par.Progs[0])
	case c.Hist != nil:
		look(c.Hist.make())
	case c.Odd != nil:
		sis := c.Odd.H.make()
		for _, w := range c.Odd.Odds {
			w.do(sis)
		}
		look(sis)
	case c.Doc != nil:
		sis := &scte35.SpliceInfoSection{}
		var err error
		if c.Doc.Kind == "json" {
			err = json.Unmarshal(c.Doc.bytes(), sis)
		} else {
			err = xml.Unmarshal(c.Doc.bytes(), sis)
		}
		fmt.Fprintln(&sb, "refused", err != nil)
		if err == nil {
			look(sis)
		}
	case c.Nums != nil:
		n := c.Nums
		u := scte35.NewUTCSpliceTime(n.G)
		v := scte35.UTCSpliceTime{Time: time.Unix(0, n.D)}
		fmt.Fprintln(&sb, int64(scte35.TicksToDuration(n.A)), scte35.DurationToTicks(time.Duration(n.D)), u.UnixNano(), u.GPSSeconds(), v.GPSSeconds())
		p := scte35.NewSegmentationUPID(n.T, n.Raw)
		fmt.Fprintln(&sb, dump(p), p.Name(), p.ASCIIValue())
		p = scte35.SegmentationUPID{Type: n.T, Value: n.Text}
		fmt.Fprintln(&sb, dump(p), p.Name(), p.ASCIIValue())
		fmt.Fprintf(&sb, "%T\n", scte35.NewSpliceCommand(n.T))
		fmt.Fprintf(&sb, "%T\n", scte35.NewSpliceDescriptor(n.G, n.T))
		for _, f := range []func(string) (*scte35.SpliceInfoSection, error){scte35.DecodeBase64, scte35.DecodeHex} {
			sis, err := f(n.Text)
			fmt.Fprintln(&sb, err, dump(sis))
		}
	}
	return sb.String()
}

func init() {
	core.Answer = func(q []byte) string {
		var c wordCase
		if err := json.Unmarshal(q, &c); err != nil {
			return "question not understood: " + err.Error()
		}
		return c.play()
	}
}

func checkWord(c wordCase, o *core.Obs) error {
	o.NonTrivial()
	q, err := json.Marshal(c)
	if err != nil {
		return &core.HarnessError{Msg: err.Error()}
	}
	// what the partner is given is what is done here
	var again wordCase
	if err := json.Unmarshal(q, &again); err != nil {
		return &core.HarnessError{Msg: err.Error()}
	}
	want := again.play()
	got, arch := core.AskPartner(q)
	o.Label("compared with " + arch)
	if got == want {
		return nil
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for k := range w {
		if at(g, k) != w[k] {
			return fail("line %d of what was seen is\n%s\non %s, and here\n%s", k, at(g, k), arch, w[k])
		}
	}
	return fail("more is seen on %s:\n%s", arch, got)
}

func init() {
	core.Register(&core.Prop{
		ID:    "P28",
		Setup: core.BuildPartner,
		Rule: "the same history of loads, edits and observations, the same document with something wrong, the same numbers and texts, the same section with values that " +
			"need not make sense, go to this process and to younger ones of a build for a 32-bit platform in another environment, and everything seen is compared; non-trivial: all",
		Assumptions: []string{"386 stands for the 32-bit platforms; where it cannot be run, and the labels say so, only another process is compared with"},
		Subs: []*core.Sub{
			core.New("histories", 12000, 240000, func(t *rapid.T) wordCase {
				c := parCase{Rounds: 1}
				for n := gen.N(t, 1, 3); n > 0; n-- {
					c.Inputs = append(c.Inputs, genLoad(t))
				}
				p := []step{{"load", 0}}
				for k := gen.N(t, 2, 10); k > 0; k-- {
					s := step{Do: pick(t, []string{"look", "look", "look", "look", "load", "edit", "text", "upid"})}
					switch s.Do {
					case "look":
						s.K = gen.N(t, 0, len(observers)-1)
					case "load":
						s.K = gen.N(t, 0, len(c.Inputs)-1)
					case "upid":
						s.K = gen.N(t, 0, 17)
					}
					p = append(p, s)
				}
				c.Progs = [][]step{p}
				return wordCase{Par: &c}
			}, checkWord),
			core.New("sections", 12000, 240000, func(t *rapid.T) wordCase {
				h := histCase{Via: pick(t, []string{"decode", "built", "json", "xml"})}
				if h.Via == "decode" && gen.P(t, 50) {
					h.Data = anyBytes(t)
				} else {
					s := gen.Section(t, gen.Cfg{Encrypt: true, PreRoll: true, Doc: h.Via != "built", WireUPID: h.Via == "decode"})
					if h.S = s; h.Via == "decode" {
						h.Data, h.S = s.Canonical(), nil
					}
				}
				return wordCase{Hist: &h}
			}, checkWord),
			core.New("anything", 6000, 120000, func(t *rapid.T) wordCase {
				switch gen.N(t, 0, 3) {
				case 0:
					d := genBadJSON(t)
					return wordCase{Doc: &d}
				case 1:
					d := genBadXML(t)
					return wordCase{Doc: &d}
				case 2:
					c := genOddCase(t)
					return wordCase{Odd: &c}
				}
				if gen.P(t, 30) {
					// numbers inside the text of a UPID
					n := fmt.Sprint(gen.U(t, pick(t, []int{8, 16, 17, 31, 32, 33, 63, 64})))
					text := pick(t, []string{"10." + n + "/7791-8534-2C23-9030-8610", n, "0" + n, "-" + n, "+" + n, n + "." + n, n + "0"})
					return wordCase{Nums: &numberCase{T: pick(t, []uint32{0x0A, 0x0A, 8, 8, 9, 0x0C}), Text: text}}
				}
				return wordCase{Nums: &numberCase{A: gen.U(t, 64), D: int64(gen.U(t, 64)), G: gen.U32(t, 32), T: gen.U32(t, 8), Raw: gen.Bytes(t, 0, 20), Text: genBadText(t).Text}}
			}, checkWord),
		},
	})
}
