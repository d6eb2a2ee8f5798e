package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

func buildCLI(scratch string) error {
	cmd := exec.Command("go", "build", "-mod=readonly", "-o", filepath.Join(scratch, "cli"), ".")
	cmd.Dir = "/repo"
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOFLAGS=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "GOFLAGS=")
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("the command line tool does not build: %v\n%s", err, out)
	}
	return nil
}

// cli runs the tool.
func cli(stdin []byte, chunk int, args ...string) (stdout, stderr string) {
	cmd := exec.Command(filepath.Join(core.Scratch(), "cli"), args...)
	cmd.Dir = core.Scratch()
	cmd.Env = append(os.Environ(), "TZ="+core.ZoneName)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	switch {
	case stdin == nil:
	case chunk == 0:
		cmd.Stdin = bytes.NewReader(stdin)
	default: // comes in pieces
		p, err := cmd.StdinPipe()
		if err != nil {
			panic(&core.HarnessError{Msg: err.Error()})
		}
		go func() {
			for n := 0; len(stdin) > 0; n++ {
				k := min(chunk, len(stdin))
				if _, err := p.Write(stdin[:k]); err != nil {
					break
				}
				stdin = stdin[k:]
				if n < 4 {
					time.Sleep(time.Millisecond)
				} else {
					chunk = 4096
				}
			}
			_ = p.Close()
		}()
	}
	if err := cmd.Run(); err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic(&core.HarnessError{Msg: err.Error()})
		}
	}
	return out.String(), errb.String()
}

var (
	errorLine  = regexp.MustCompile(`(?mi)^\s*(Error|panic|fatal error):`)
	panicLine  = regexp.MustCompile(`(?m)^(panic|fatal error):`)
	base64Line = regexp.MustCompile(`(?mi)^\s*base-?64\s*:[ \t]*(\S*)[ \t\r]*$`)
	hexLine    = regexp.MustCompile(`(?mi)^\s*hex(?:adecimal)?\s*:[ \t]*(\S*)[ \t\r]*$`)
)

// ---- decode

type cliDecode struct {
	Text string `json:"text"`
	Out  string `json:"out"`  // "", "text", "json", "xml"
	Form int    `json:"form"` // how the flag is given
}

func genCLIDecode(t *rapid.T) cliDecode {
	c := cliDecode{Out: pick(t, []string{"", "text", "json", "json", "xml", "xml"}), Form: gen.N(t, 0, 2)}
	if gen.P(t, 15) {
		c.Text = genBadText(t).Text
		if strings.ContainsRune(c.Text, 0) || strings.HasPrefix(c.Text, "-") || len(c.Text) > 100000 {
			c.Text = "?"
		}
		return c
	}
	var data []byte
	switch gen.N(t, 0, 3) {
	case 0, 1:
		data = gen.Section(t, gen.Cfg{Encrypt: true}).Canonical()
	case 2:
		data = malformed(t, gen.Section(t, gen.Cfg{}), gen.B(t))
	case 3:
		data = anyBytes(t)
	}
	if gen.P(t, 15) && len(data) > 7 && data[0] == 0xFC {
		// the first three octets decide the first four characters of Base64,
		// of which the library reads the SAP type only
		head, _ := base64.StdEncoding.DecodeString(pick(t, []string{"fc30", "FC30", "fc70", "0Xfc", "0fc3", "fcfc", "3000", "PFhN", "eyJ0", "1234", "hex0", "xml+", "json"}))
		copy(data, head)
		data = ref.FixCRC(data)
	}
	if gen.B(t) {
		h := textCase{Data: data, Case: uint64(gen.N(t, 0, 5)), Pre: true}
		c.Text = hexText(&h)
	} else {
		c.Text = base64.StdEncoding.EncodeToString(data)
	}
	return c
}

func checkCLIDecode(c cliDecode, o *core.Obs) error {
	args := []string{"decode"}
	if c.Out != "" {
		o.NonTrivial()
		switch c.Form {
		case 0:
			args = append(args, "--out", c.Out, c.Text)
		case 1:
			args = append(args, "--out="+c.Out, c.Text)
		case 2:
			args = append(args, c.Text, "--out", c.Out)
		}
	} else {
		args = append(args, c.Text)
	}
	stdout, stderr := cli(nil, 0, args...)

	var sis *scte35.SpliceInfoSection
	var err error
	if strings.HasPrefix(c.Text, "0x") {
		sis, err = scte35.DecodeHex(c.Text)
	} else {
		sis, err = scte35.DecodeBase64(c.Text)
	}
	o.Label("out " + c.Out)
	o.LabelIf(err == nil, "accepted signal")
	o.LabelIf(err != nil, "refused signal")
	if err != nil {
		o.NonTrivial()
	}
	if panicLine.MatchString(stderr) {
		return fail("the tool panics: %s", stderr)
	}
	if said := errorLine.MatchString(stderr); said != (err != nil) {
		return fail("the library's error is %v; standard error: %q", err, stderr)
	}
	if err != nil && !strings.Contains(stderr, err.Error()) {
		return fail("the library's error is %v; standard error: %q", err, stderr)
	}
	var want []byte
	switch c.Out {
	case "json":
		want, _ = json.Marshal(sis)
		var a, b bytes.Buffer
		if e := json.Compact(&a, []byte(stdout)); e != nil {
			return fail("standard output is no JSON (%v): %q", e, stdout)
		}
		_ = json.Compact(&b, want)
		if a.String() != b.String() {
			return fail("standard output is\n%s\nthe library's JSON is\n%s", a.String(), b.String())
		}
	case "xml":
		want, e := xml.MarshalIndent(sis, "", " ")
		if e != nil {
			return nil // not to be had as XML
		}
		w, e := readXML(want)
		if e != nil {
			return nil
		}
		g, e := readXML([]byte(stdout))
		if e != nil {
			return fail("standard output is no XML (%v): %q", e, stdout)
		}
		if d := sameTree(g, w, ""); d != nil {
			return fail("standard output is not the library's XML: %v", d)
		}
	default:
		table := sis.Table("", "\t")
		if strings.Trim(stdout, "\n") != strings.Trim(table, "\n") {
			return fail("standard output is\n%s\nthe library's table is\n%s", stdout, table)
		}
	}
	return nil
}

// sameTree compares two documents.
func sameTree(g, w *xelem, path string) error {
	path += "/" + w.name
	if g.name != w.name || g.space != w.space {
		return fail("%s: element {%s}%s", path, g.space, g.name)
	}
	if fmt.Sprint(g.attrs) != fmt.Sprint(w.attrs) {
		return fail("%s: attributes %v, want %v", path, g.attrs, w.attrs)
	}
	if len(g.kids) != len(w.kids) {
		return fail("%s: %d children, want %d", path, len(g.kids), len(w.kids))
	}
	if strings.TrimSpace(g.text) != strings.TrimSpace(w.text) {
		return fail("%s: text %q, want %q", path, g.text, w.text)
	}
	for i := range w.kids {
		if err := sameTree(g.kids[i], w.kids[i], path); err != nil {
			return err
		}
	}
	return nil
}

// ---- encode

type cliEncode struct {
	Doc   badDoc       `json:"doc"`
	S     *ref.Section `json:"s,omitempty"` // what the document describes
	Pad   int          `json:"pad"`         // white space before it and after it
	After int          `json:"after"`
	Space int          `json:"space"`
	Chunk int          `json:"chunk"`
	Inner int          `json:"inner,omitempty"` // white space inside it
}

func genCLIEncode(t *rapid.T) cliEncode {
	c := cliEncode{Chunk: pick(t, []int{0, 0, 0, 1, 7, 512, 5000}), Space: gen.N(t, 0, 3)}
	if gen.P(t, 50) {
		c.Pad = gen.N(t, 0, 30)
	}
	if gen.P(t, 50) {
		c.After = gen.N(t, 0, 30)
	}
	if gen.P(t, 10) {
		c.Pad = gen.N(t, 0, 300000)
	}
	switch {
	case gen.P(t, 5):
		c.Inner = gen.N(t, 0, 300000)
	case gen.P(t, 2):
		c.Inner = gen.N(t, 300000, 3000000)
	case gen.P(t, 2):
		c.Pad = gen.N(t, 300000, 3000000)
	}
	switch k := gen.N(t, 0, 9); {
	case k < 6: // documents that describe a section
		c.S = gen.Section(t, gen.Cfg{Doc: true, PreRoll: true, NoStuff: true})
		if gen.B(t) {
			c.Doc.Kind = "json"
			st := genJStyle(t)
			st.Wrap = false
			c.Doc.put(st.spell(c.S.JSON()))
		} else {
			c.Doc.Kind = "xml"
			docText(t, c.S, true)
			st := genStyle(t)
			st.Wrap = false
			c.Doc.put(st.spell(c.S.XML(false)))
		}
	case k == 6:
		c.Doc = genBadJSON(t)
	case k == 7:
		c.Doc = genBadXML(t)
	case k == 8:
		c.Doc = genDamaged(t)
	default:
		c.Doc = badDoc{Kind: "neither", Must: true, Doc: pick(t, []string{"", "hello", "/DAvAAAAAAAA///wBQb+dGKQoAAZAhdDVUVJSAAAjn+fCAgAAAAALKChijUCAKnMZ1g=", "[]", "null", "5",
			"\"{}\"", "\ufeff", "0xfc30", "- {}", "(", "x<SpliceInfoSection/>", "=", "#{}"})}
	}
	return c
}

var spaces = []string{" ", "\n", "\r\n", "\t \n"}

func checkCLIEncode(c cliEncode, o *core.Obs) error {
	doc := c.Doc.bytes()
	o.Label("document " + c.Doc.Kind)
	// an XML declaration has to come first
	if !bytes.HasPrefix(doc, []byte("<?xml")) {
		doc = append([]byte(strings.Repeat(spaces[c.Space], c.Pad)), doc...)
	}
	doc = append(doc, strings.Repeat(spaces[c.Space], c.After)...)
	if c.Inner > 0 && c.S != nil {
		at := bytes.LastIndex(doc, []byte("</"))
		if c.Doc.Kind == "json" {
			at = bytes.LastIndexByte(doc, '}')
		}
		if at > 0 {
			doc = append(append(append([]byte{}, doc[:at]...), strings.Repeat(spaces[c.Space], c.Inner)...), doc[at:]...)
		}
	}
	o.LabelIf(len(doc) > 1<<16, "over 64 kB")
	o.LabelIf(len(doc) > 1<<20, "over 1 MB")

	// what the library makes of it
	sis := &scte35.SpliceInfoSection{}
	var err error
	trimmed := bytes.TrimSpace(doc)
	first := byte(0)
	if len(trimmed) > 0 {
		first = trimmed[0]
	}
	switch first {
	case '{':
		err = json.Unmarshal(doc, sis)
	case '<':
		err = xml.Unmarshal(doc, sis)
	default:
		err = fmt.Errorf("no document")
	}
	if c.Doc.Must && err == nil {
		return fail("the library accepts %q", doc)
	}
	if c.S != nil && err != nil {
		return fail("the library refuses %q: %v", doc, err)
	}
	o.NonTrivial()
	o.LabelIf(err != nil, "unusable document")
	judge := func(how, stdout, stderr string) error {
		if panicLine.MatchString(stderr) {
			return fail("the tool panics (%s): %s", how, stderr)
		}
		if said := errorLine.MatchString(stderr); said != (err != nil) {
			return fail("document as %s: the library's error is %v; standard error: %q", how, err, stderr)
		}
		b, h := base64Line.FindAllStringSubmatch(stdout, -1), hexLine.FindAllStringSubmatch(stdout, -1)
		if err != nil {
			if len(b) > 0 || len(h) > 0 {
				return fail("document as %s: error %v, and yet standard output is %q", how, err, stdout)
			}
			return nil
		}
		if len(b) != 1 || len(h) != 1 {
			return fail("document as %s: standard output is %q", how, stdout)
		}
		if b[0][1] != sis.Base64() || !strings.EqualFold(strings.TrimPrefix(h[0][1], "0x"), strings.TrimPrefix(sis.Hex(), "0x")) {
			return fail("document as %s: standard output is %q; the library's forms are %s and %s", how, stdout, sis.Base64(), sis.Hex())
		}
		if c.S == nil {
			return nil
		}
		want := c.S.Canonical()
		for form, f := range map[string]func() ([]byte, error){
			"Base64":      func() ([]byte, error) { return base64.StdEncoding.DecodeString(b[0][1]) },
			"hexadecimal": func() ([]byte, error) { return hex.DecodeString(strings.TrimPrefix(strings.ToLower(h[0][1]), "0x")) },
		} {
			g, e := f()
			if e != nil {
				return fail("document as %s: bad %s form in %q", how, form, stdout)
			}
			if e := sameBytes(g, want, c.S.EncAlg != 0); e != nil {
				return fail("document as %s, %s form: %v", how, form, e)
			}
		}
		return nil
	}
	stdout, stderr := cli(doc, c.Chunk, "encode")
	if e := judge("standard input", stdout, stderr); e != nil {
		return e
	}
	if len(doc) < 100000 && bytes.IndexByte(doc, 0) < 0 && !bytes.HasPrefix(doc, []byte("-")) {
		o.Label("as an argument too")
		o.Evals(1)
		out2, err2 := cli([]byte{}, 0, "encode", string(doc))
		if e := judge("argument", out2, err2); e != nil {
			return e
		}
		if out2 != stdout {
			return fail("from standard input %q, from an argument %q", stdout, out2)
		}
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:    "P21",
		Boost: 2,
		Rule:  "decode: an output format is chosen or the signal is refused; encode: every case",
		Assumptions: []string{"the tool is built from /repo's working tree and run as a process",
			"text is matched on the lines the tool prints, not on spacing; exit codes, other flag values and the log are not judged"},
		Setup: buildCLI,
		Subs: []*core.Sub{
			core.New("decode", 6000, 150000, genCLIDecode, checkCLIDecode),
			core.New("encode", 5000, 120000, genCLIEncode, checkCLIEncode),
		},
	})
}
