package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/crc32"
	"math/bits"
	"runtime/metrics"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"

	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// allocated is how many bytes have been allocated so far.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// looks are the library's own ways of looking at a section.
var looks = map[string]bool{"Encode": true, "Base64": true, "Hex": true, "Table": true, "Table2": true, "JSON": true, "JSONIndent": true, "XML": true,
	"XMLIndent": true, "Duration": true}

// bounded checks that the memory taken for an input is in proportion to it:
// the unchanged library stays below 2 MB for what a section can be, and the
// counter itself jumps by as much.
func bounded(d []byte) error {
	limit := 32<<20 + 8<<10*uint64(len(d))
	before := allocated()
	sis, _ := decode(d)
	if a := allocated() - before; a > limit {
		return fail("decoding %d bytes allocates %d", len(d), a)
	}
	for _, o := range observers {
		if looks[o.name] {
			before := allocated()
			o.f(sis)
			if a := allocated() - before; a > limit {
				return fail("%s of a section of %d bytes allocates %d", o.name, len(d), a)
			}
		}
	}
	return nil
}

func checkTotal(c dataCase, o *core.Obs) error {
	if err := bounded(c.Data); err != nil {
		return err
	}
	sis, err := decode(c.Data)
	r := ref.Decode(c.Data)
	o.Label("outcome " + map[bool]string{true: "accepted", false: errClass(err)}[err == nil])
	if len(r.Sec.Descs) > 0 || r.CmdErr || len(c.Data) > 14 {
		o.NonTrivial()
	}
	observe(sis)
	h, herr := scte35.DecodeHex(hex.EncodeToString(c.Data))
	b, berr := scte35.DecodeBase64(base64.StdEncoding.EncodeToString(c.Data))
	if h == nil || b == nil {
		return fail("a convenience decoder returned a nil section")
	}
	if errClass(herr) != errClass(err) || errClass(berr) != errClass(err) {
		return fail("the outcome depends on the text form: binary %v, hex %v, base64 %v", err, herr, berr)
	}
	observe(h)
	o.Evals(3 * len(observers))
	return nil
}

// genAnyText draws a text, seldom one that denotes a signal.
func genAnyText(t *rapid.T) badText {
	switch gen.N(t, 0, 3) {
	case 0: // any characters
		return badText{Text: strings.ToValidUTF8(string(gen.Bytes(t, 0, 60)), "\uFFFD"), Hex: gen.B(t)}
	case 1: // of the alphabet
		n, c := gen.N(t, 0, 12), badText{Hex: gen.B(t)}
		for ; n > 0; n-- {
			c.Text += pick(t, []string{"0", "x", "F", "c", "/", "+", "=", "A", "D", "9"})
		}
		return c
	}
	return genBadText(t)
}

func checkAnyText(c badText, o *core.Obs) error {
	o.LabelIf(len(c.Text) < 4, "shorter than 4 characters")
	for name, f := range map[string]func(string) (*scte35.SpliceInfoSection, error){"DecodeHex": scte35.DecodeHex, "DecodeBase64": scte35.DecodeBase64} {
		before := allocated()
		sis, err := f(c.Text)
		if a := allocated() - before; a > 32<<20+8<<10*uint64(len(c.Text)) {
			return fail("%s of %d characters allocates %d", name, len(c.Text), a)
		}
		if sis == nil {
			return fail("%s(%q) returns a nil section (%v)", name, c.Text, err)
		}
		if err != nil {
			o.NonTrivial()
			o.Label(name + " " + errClass(err))
		}
		observe(sis)
	}
	o.Evals(2 * len(observers))
	return nil
}

// largeCase is a section that consists of one small thing many times over.
type largeCase struct {
	Kind  int  `json:"kind"`
	Bytes int  `json:"bytes"` // how large, about
	Cut   int  `json:"cut"`   // bytes missing at the end
	Fix   bool `json:"fix"`   // the CRC is right
}

var largeKinds = []string{"empty descriptors", "private descriptors", "CUEI descriptors without a body", "avail descriptors", "DTMF descriptors",
	"segmentation descriptors", "time descriptors", "audio descriptors", "UPIDs", "components", "schedule", "insert components",
	"private command", "stuffing", "lying counts", "noise"}

func (c largeCase) data() []byte {
	cmdType, cmd := byte(0), []byte(nil)
	var loop, stuff []byte
	rep := func(b ...byte) []byte { return bytes.Repeat(b, max(1, c.Bytes/len(b))) }
	rep4 := func(b ...byte) []byte { return bytes.Repeat(b, max(1, c.Bytes/4/len(b))) }
	cuei := func(tag byte, body ...byte) []byte {
		return append([]byte{tag, byte(4 + len(body)), 'C', 'U', 'E', 'I'}, body...)
	}
	switch c.Kind {
	case 0:
		loop = rep(0, 0)
	case 1:
		loop = rep(0x80, 4, 'A', 'B', 'C', 'D')
	case 2:
		loop = rep(cuei(2)...)
	case 3:
		loop = rep(cuei(0, 0, 0, 0, 1)...)
	case 4:
		loop = rep(cuei(1, 10, 0x3F, '1')...)
	case 5:
		loop = rep(cuei(2, 0, 0, 0, 1, 0x7F, 0xBF, 0, 0, 0x10, 1, 1)...)
	case 6:
		loop = rep(cuei(3, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)...)
	case 7:
		loop = rep(cuei(4, 0x1F, 1, 'e', 'n', 'g', 0)...)
	case 8: // a MID of as many UPIDs as it can have
		mid := bytes.Repeat([]byte{1, 0}, 117)
		loop = rep(cuei(2, append([]byte{0, 0, 0, 1, 0x7F, 0xBF, 0x0D, byte(len(mid))}, append(mid, 0x10, 1, 1)...)...)...)
	case 9:
		comps := bytes.Repeat([]byte{7, 0xFE, 0, 0, 0, 1}, 39)
		loop = rep(cuei(2, append([]byte{0, 0, 0, 1, 0x7F, 0x3F, 39}, append(comps, 0, 0, 0x10, 1, 1)...)...)...)
	case 10: // events that have nothing but a number
		cmdType, cmd = 4, append([]byte{255}, rep(0, 0, 0, 1, 0xFF)...)
	case 11:
		cmdType, cmd = 5, append([]byte{0, 0, 0, 1, 0x7F, 0x1F, 255}, rep(9, 0x7F)...)
	case 12:
		cmdType, cmd = 0xFF, append([]byte("ABCD"), rep(7)...)
	case 13:
		stuff = rep(0xFF)
	case 14: // 255 components, 255 octets of UPID, and nothing there
		loop = rep4(append(cuei(2, 0, 0, 0, 1, 0x7F, 0x3F, 255), cuei(2, 0, 0, 0, 1, 0x7F, 0xBF, 0x0D, 255)...)...)
	default:
		loop = rep(2, 5, 0x43, 0x55, 0x45, 0x49, 0xFF, 3)
	}
	b := []byte{0xFC, 0x30, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xF0, 0, cmdType}
	put12(b, 11, len(cmd))
	b = append(b, cmd...)
	n := min(len(loop), 0xFFFF)
	b = append(b, byte(n>>8), byte(n))
	b = append(append(append(b, loop...), stuff...), 0, 0, 0, 0)
	put12(b, 1, len(b)-3)
	b = b[:max(0, len(b)-c.Cut)]
	if c.Fix && len(b) >= 4 {
		b = ref.FixCRC(b)
	}
	return b
}

func checkLarge(c largeCase, o *core.Obs) error {
	if err := bounded(c.data()); err != nil {
		return err
	}
	if c.Kind >= 0 && c.Kind < len(largeKinds) {
		o.Label(largeKinds[c.Kind])
	}
	o.LabelIf(c.Bytes > 4098, "beyond what a section can be")
	o.NonTrivial()
	d := c.data()
	sis, _ := decode(d)
	observe(sis)
	sis = &scte35.SpliceInfoSection{}
	_ = sis.Decode(d)
	observe(sis)
	return nil
}

func genLarge(t *rapid.T) largeCase {
	c := largeCase{Kind: gen.N(t, 0, len(largeKinds)-1), Bytes: gen.N(t, 1, 4000), Fix: gen.P(t, 80)}
	if gen.P(t, 40) {
		c.Bytes = gen.N(t, 4000, 16000)
	}
	if gen.P(t, 30) {
		c.Cut = gen.N(t, 1, 12)
	}
	return c
}

// allLarge has every kind at two sizes.
func allLarge() []largeCase {
	var out []largeCase
	for _, n := range []int{4000, 16000} {
		for k := range largeKinds {
			out = append(out, largeCase{Kind: k, Bytes: n, Fix: true})
		}
	}
	return out
}

type fidCase struct {
	S   *ref.Section `json:"s"`
	MID bool         `json:"mid"`
}

func init() {
	core.Register(&core.Prop{
		ID:      "P01",
		Boost:   1,
		CaseCPU: 10 * time.Second, // "promptly": the largest takes a tenth of a second
		Rule: "cases are byte strings: random bytes, valid headers followed by random bytes, and valid sections with lying " +
			"lengths, counts, types, flipped bits, cuts and insertions (CRC mostly repaired); each is decoded and every " +
			"observer is called on the result; texts are damaged signals in text form and arbitrary strings; large inputs are one small thing many times " +
			"over; non-trivial: more than a bare header reaches the decoder, or the text is refused",
		Subs: []*core.Sub{
			core.New("large", 3000, 30000, genLarge, checkLarge, allLarge()...),
			core.New("decode-and-observe", 240000, 3000000, func(t *rapid.T) dataCase { return dataCase{anyBytes(t)} }, checkTotal,
				dataCase{}, dataCase{ref.Hex{0xFC}}),
			core.New("texts", 32000, 400000, genAnyText, checkAnyText, badText{}, badText{Hex: true}, badText{Text: "0x", Hex: true}, badText{Text: "="}, badText{Text: "A"}),
			core.Fuzz("coverage-guided", 2000000, 60, signalSeed, fuzzSignal, checkTotal),
			core.New("observe-valid", 32000, 400000, genSection(gen.Cfg{Encrypt: true, WireUPID: true}), func(c secCase, o *core.Obs) error {
				classify(c.S, o)
				if rich(c.S) {
					o.NonTrivial()
				}
				sis, _ := decode(c.S.Canonical())
				observe(sis)
				observe(api.Section(c.S))
				return nil
			}),
		},
	})

	core.Register(&core.Prop{
		ID: "P02",
		Rule: "cases are sections drawn field by field (all commands, descriptors, UPID types, boundary values, up to the size " +
			"limits), encoded by the reference encoder and decoded by the library, and damaged signals of P11's kind that come out " +
			"canonical; non-trivial: the section carries a command with a body or a descriptor, the signal is sound",
		Subs: []*core.Sub{
			core.New("fidelity", 320000, 3200000, func(t *rapid.T) fidCase {
				return fidCase{S: gen.Section(t, gen.Cfg{WireUPID: true}), MID: gen.P(t, 8)}
			}, func(c fidCase, o *core.Obs) error {
				classify(c.S, o)
				if rich(c.S) {
					o.NonTrivial()
				}
				o.LabelIf(c.MID, "MID around one UPID or none")
				b := c.S.Encode(ref.EncOpts{MID: c.MID})
				sis, err := decode(b)
				if err != nil {
					return fail("a conforming section is rejected: %v\n%x", err, b)
				}
				if err := api.Cmp(sis, c.S); err != nil {
					return fail("decoded wrongly: %v\n%x", err, b)
				}
				return api.Leftovers(sis)
			}),
			core.New("encrypted-header", 32000, 320000, func(t *rapid.T) secCase {
				s := gen.Section(t, gen.Cfg{})
				s.EncAlg = uint32(gen.N(t, 1, 63))
				return secCase{s}
			}, func(c secCase, o *core.Obs) error {
				o.NonTrivial()
				b := c.S.Canonical()
				sis, err := decode(b)
				if err != nil {
					return fail("a conforming section is rejected: %v\n%x", err, b)
				}
				if !sis.EncryptedPacketFlag() {
					return fail("EncryptedPacketFlag is false")
				}
				return api.Cmp(sis, c.S)
			}),
			core.New("conforming bytes", 40000, 1000000, func(t *rapid.T) dataCase { return dataCase{anyBytes(t)} }, checkAccepted(true)),
			core.Fuzz("coverage-guided", 2000000, 60, signalSeed, fuzzSignal, checkAccepted(true)),
		},
	})

	core.Register(&core.Prop{
		ID:    "P03",
		Boost: 8,
		Rule: "cases are sections built through the public structs, some with leftovers in fields the flags switch off; Encode is " +
			"compared byte for byte with the reference encoding (length fields, reserved ones, CRC); non-trivial: the section " +
			"carries a command with a body or a descriptor",
		Assumptions: []string{"the value of E_CRC_32 is not fixed: the library does not encrypt"},
		Subs: []*core.Sub{
			core.New("conformance", 320000, 3200000, func(t *rapid.T) encCase {
				return encCase{S: gen.Section(t, gen.Cfg{NoStuff: true, Encrypt: true}), Dirty: drawLeft(t, 30)}
			}, func(c encCase, o *core.Obs) error {
				classify(c.S, o)
				if rich(c.S) {
					o.NonTrivial()
				}
				sis := api.Section(c.S)
				if c.Dirty != 0 {
					o.Label("leftovers in switched-off fields")
					dirty(sis, c.Dirty)
				}
				got, err := sis.Encode()
				if err != nil {
					return fail("Encode: %v", err)
				}
				return sameBytes(got, c.S.Canonical(), c.S.EncAlg != 0)
			}),
			core.New("stuffing", 48000, 480000, func(t *rapid.T) secCase {
				s := gen.Section(t, gen.Cfg{NoBulk: true, NoStuff: true, Encrypt: true})
				s.Stuff = gen.Bytes(t, 1, 40)
				return secCase{s}
			}, func(c secCase, o *core.Obs) error {
				o.NonTrivial()
				want := c.S.Canonical()
				sis, err := decode(want)
				if err != nil {
					return fail("decode: %v", err)
				}
				got, err := sis.Encode()
				if err != nil {
					return fail("Encode: %v", err)
				}
				return sameBytes(got, want, c.S.EncAlg != 0)
			}),
		},
	})

	core.Register(&core.Prop{
		ID: "P04",
		Rule: "canonical sections are decoded and re-encoded; malformed or variant byte strings that the library accepts are decoded, " +
			"re-encoded and decoded again; non-trivial: a command with a body or a descriptor takes part",
		Assumptions: []string{"variant inputs whose UPIDs are not in their type's own form (an EIDR that is not 12 bytes, a TI that is not " +
			"8) re-encode in another form and are left out, and counted"},
		Subs: []*core.Sub{
			core.New("canonical", 240000, 2400000, genSection(gen.Cfg{}), func(c secCase, o *core.Obs) error {
				classify(c.S, o)
				if rich(c.S) {
					o.NonTrivial()
				}
				b := c.S.Canonical()
				sis, err := decode(b)
				if err != nil {
					return fail("decode: %v\n%x", err, b)
				}
				got, err := sis.Encode()
				if err != nil {
					return fail("Encode: %v", err)
				}
				if !bytes.Equal(got, b) {
					return sameBytes(got, b, false)
				}
				return nil
			}),
			core.New("accepted-variants", 240000, 2400000, func(t *rapid.T) dataCase { return dataCase{variantBytes(t)} },
				checkCanonicalised),
			core.Fuzz("coverage-guided", 2000000, 60, signalSeed, fuzzSignal, checkCanonicalised),
		},
	})

	core.Register(&core.Prop{
		ID: "P05",
		Rule: "valid sections are corrupted: every bit in turn for short ones, drawn bursts and scattered bytes for long ones, the CRC field " +
			"itself; a corruption that leaves the structure sound must be refused as a CRC error with the content decoded; non-trivial: " +
			"the corrupted bytes differ and the structure is still sound",
		Subs: []*core.Sub{
			core.New("every-bit", 1500, 60000, genSection(gen.Cfg{NoBulk: true, Encrypt: true}), func(c secCase, o *core.Obs) error {
				b := c.S.Canonical()
				if len(b) > 400 {
					return nil
				}
				o.NonTrivial()
				o.Evals(len(b) * 8)
				for i := range b {
					for k := 0; k < 8; k++ {
						m := append([]byte{}, b...)
						m[i] ^= 1 << uint(k)
						if err := checkCorrupt(m, nil); err != nil {
							return fail("bit %d of byte %d flipped: %v", k, i, err)
						}
					}
				}
				return nil
			}),
			core.New("bursts", 30000, 1500000, func(t *rapid.T) corruptCase {
				s := gen.Section(t, gen.Cfg{Encrypt: true})
				n := len(s.Canonical())
				c := corruptCase{S: s}
				switch gen.N(t, 0, 3) {
				case 0: // the CRC field
					c.At = n - gen.N(t, 1, 4)
					c.XOR = gen.Bytes(t, 1, n-c.At)
				case 1: // burst of up to four bytes
					c.At = gen.N(t, 0, n-1)
					c.XOR = gen.Bytes(t, 1, min(4, n-c.At))
				case 2: // anything
					c.At = gen.N(t, 0, n-1)
					c.XOR = gen.Bytes(t, 1, min(24, n-c.At))
				default: // a whole section
					c.At = 0
					c.XOR = make([]byte, n)
					c.XOR[gen.N(t, 0, n-1)] = byte(gen.N(t, 1, 255))
					c.XOR[gen.N(t, 0, n-1)] = byte(gen.N(t, 1, 255))
				}
				return c
			}, func(c corruptCase, o *core.Obs) error {
				b := c.S.Canonical()
				if c.At+len(c.XOR) > len(b) {
					return nil
				}
				m := append([]byte{}, b...)
				for i, x := range c.XOR {
					m[c.At+i] ^= x
				}
				if bytes.Equal(b, m) {
					return nil
				}
				return checkCorrupt(m, o)
			}),
			core.New("crc-field", 20000, 800000, func(t *rapid.T) crcFieldCase {
				s := gen.Section(t, gen.Cfg{Encrypt: true, NoBulk: gen.P(t, 90)})
				if gen.P(t, 30) {
					s = &ref.Section{SAP: 3, Tier: 0xFFF, PTSAdj: gen.U(t, 33), Cmd: ref.Cmd{Type: ref.CmdNull}}
				}
				return crcFieldCase{S: s, Value: gen.N(t, 0, len(crcValues)-1)}
			}, checkCRCField),
			core.New("encode-crc", 10000, 400000, genSection(gen.Cfg{Encrypt: true}), func(c secCase, o *core.Obs) error {
				o.NonTrivial()
				sis := api.Section(c.S)
				if len(c.S.Stuff) > 0 { // only a decoded section has it
					var err error
					if sis, err = decode(c.S.Canonical()); err != nil {
						return fail("decoding: %v", err)
					}
					sis.EncryptedPacket.CWIndex ^= 0x81
				}
				o.LabelIf(c.S.EncAlg != 0, "encrypted")
				o.LabelIf(len(c.S.Stuff) > 0, "stuffed")
				got, err := sis.Encode()
				if err != nil {
					return fail("Encode: %v", err)
				}
				if !bytes.Equal(got, ref.FixCRC(got)) {
					return fail("the CRC_32 of %x is not the MPEG-2 CRC of the bytes before it", got)
				}
				if _, err := decode(got); err != nil {
					return fail("the encoded section is refused: %v", err)
				}
				return nil
			}),
		},
	})
}

type encCase struct {
	S     *ref.Section `json:"s"`
	Dirty uint64       `json:"dirty,omitempty"`
}

type corruptCase struct {
	S   *ref.Section `json:"s"`
	At  int          `json:"at"`
	XOR ref.Hex      `json:"xor"`
}

// crcFieldCase is a valid section whose CRC field is given another value, one
// that lenient or mistaken implementations accept.
type crcFieldCase struct {
	S     *ref.Section `json:"s"`
	Value int          `json:"value"`
}

var crcValues = []struct {
	name string
	f    func(b []byte, crc uint32) uint32
}{
	{"zero", func([]byte, uint32) uint32 { return 0 }},
	{"all ones", func([]byte, uint32) uint32 { return 0xFFFFFFFF }},
	{"one", func([]byte, uint32) uint32 { return 1 }},
	{"inverted", func(_ []byte, c uint32) uint32 { return ^c }},
	{"byte order reversed", func(_ []byte, c uint32) uint32 { return bits.ReverseBytes32(c) }},
	{"bit order reversed", func(_ []byte, c uint32) uint32 { return bits.Reverse32(c) }},
	{"halves swapped", func(_ []byte, c uint32) uint32 { return bits.RotateLeft32(c, 16) }},
	{"low half only", func(_ []byte, c uint32) uint32 { return c & 0xFFFF }},
	{"high half only", func(_ []byte, c uint32) uint32 { return c &^ 0xFFFF }},
	{"IEEE CRC-32", func(b []byte, _ uint32) uint32 { return crc32.ChecksumIEEE(b) }},
	{"Castagnoli CRC-32", func(b []byte, _ uint32) uint32 { return crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli)) }},
	{"started from zero", func(b []byte, _ uint32) uint32 { return mpegCRC(0, b) }},
	{"without the first byte", func(b []byte, _ uint32) uint32 { return mpegCRC(0xFFFFFFFF, b[1:]) }},
	{"without the last byte", func(b []byte, _ uint32) uint32 { return mpegCRC(0xFFFFFFFF, b[:len(b)-1]) }},
	{"without the last four bytes", func(b []byte, _ uint32) uint32 { return mpegCRC(0xFFFFFFFF, b[:len(b)-4]) }},
	{"of the descriptors left out", func(b []byte, _ uint32) uint32 { return mpegCRC(0xFFFFFFFF, b[:min(14, len(b))]) }},
	{"magic DEADBEEF", func([]byte, uint32) uint32 { return 0xDEADBEEF }},
}

func mpegCRC(crc uint32, b []byte) uint32 {
	for _, x := range b {
		for k := 7; k >= 0; k-- {
			top := crc >> 31
			crc <<= 1
			if top != uint32(x>>uint(k)&1) {
				crc ^= 0x04C11DB7
			}
		}
	}
	return crc
}

func checkCRCField(c crcFieldCase, o *core.Obs) error {
	m := append([]byte{}, c.S.Canonical()...)
	n := len(m) - 4
	crc := binary.BigEndian.Uint32(m[n:])
	v := crcValues[c.Value%len(crcValues)]
	o.Label("CRC " + v.name)
	binary.BigEndian.PutUint32(m[n:], v.f(m[:n:n], crc))
	if binary.BigEndian.Uint32(m[n:]) == crc {
		return nil
	}
	return checkCorrupt(m, o)
}

// checkCorrupt: m differs from a valid section.
func checkCorrupt(m []byte, o *core.Obs) error {
	r := ref.Decode(m)
	sis, err := decode(m)
	if r.Err == ref.OK {
		return nil // the corruption happens to keep the CRC right
	}
	if err == nil {
		return fail("a corrupted section is accepted: %x", m)
	}
	if r.Err != ref.BadCRC {
		return nil
	}
	if o != nil {
		o.NonTrivial()
		o.Label("structure sound, CRC wrong")
	}
	if !errors.Is(err, scte35.ErrCRC32Invalid) {
		return fail("only the CRC is wrong, but the error is %v: %x", err, m)
	}
	if r.Loose {
		return nil
	}
	if err := api.Cmp(sis, r.Sec); err != nil {
		return fail("content not decoded beside the CRC error: %v\n%x", err, m)
	}
	return nil
}

// drawLeft draws how dirty leaves things over: 0 for not at all, all ones for
// everything.
func drawLeft(t *rapid.T, pct int) uint64 {
	switch {
	case !gen.P(t, pct):
		return 0
	case gen.P(t, 30):
		return ^uint64(0)
	}
	return gen.U(t, 64) | 1
}

// dirty puts leftovers into fields that the flags switch off: into all of them
// or, as drawn, into some.
func dirty(sis *scte35.SpliceInfoSection, how uint64) {
	if how == 0 {
		return
	}
	junk := uint64(0x1F00FF00F)
	state := how
	next := func() uint64 { // splitmix64
		state += 0x9E3779B97F4A7C15
		z := state
		z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
		z = (z ^ z>>27) * 0x94D049BB133111EB
		return z ^ z>>31
	}
	some := func() bool { return how == ^uint64(0) || next()%2 == 0 }
	num := func(usual uint32, mask uint64) uint32 {
		switch v := next(); {
		case how == ^uint64(0):
			return usual
		case v%4 == 0:
			return uint32(v >> 8 & 3)
		case v%4 == 1:
			return uint32(mask)
		default:
			return uint32(v >> 8 & mask)
		}
	}
	long := func() uint64 {
		switch v := next(); {
		case how == ^uint64(0) || v%4 == 0:
			return junk
		case v%4 == 1:
			return v >> 8 & 1
		default:
			return v >> 31
		}
	}
	// of the lists
	many := func() int {
		if how == ^uint64(0) {
			return 1
		}
		return int(next() % 9)
	}
	switch v := sis.SpliceCommand.(type) {
	case *scte35.SpliceInsert:
		comps := func() {
			for n := many(); n > 0; n-- {
				c := scte35.SpliceInsertComponent{Tag: num(9, 255)}
				if how != ^uint64(0) && some() {
					c.SpliceTime = &scte35.SpliceTime{}
					if some() {
						pts := long()
						c.SpliceTime.PTSTime = &pts
					}
				}
				v.Components = append(v.Components, c)
			}
		}
		if v.SpliceEventCancelIndicator {
			if some() {
				v.Program = scte35.NewSpliceInsertProgram(long())
			}
			if some() {
				v.BreakDuration = &scte35.BreakDuration{AutoReturn: some(), Duration: long()}
			}
			if some() {
				v.UniqueProgramID, v.AvailNum, v.AvailsExpected = num(77, 0xFFFF), num(7, 255), num(9, 255)
			}
			v.OutOfNetworkIndicator = some()
			v.SpliceImmediateFlag = v.SpliceImmediateFlag || how != ^uint64(0) && some()
			if some() {
				comps()
			}
		} else if v.Program != nil {
			if some() {
				comps()
			}
			if v.SpliceImmediateFlag && some() {
				pts := long()
				v.Program.SpliceTime.PTSTime = &pts
			}
		} else {
			for i := range v.Components {
				if !some() {
					continue
				}
				if v.SpliceImmediateFlag {
					pts := long()
					v.Components[i].SpliceTime = &scte35.SpliceTime{PTSTime: &pts}
				} else if v.Components[i].SpliceTime == nil {
					v.Components[i].SpliceTime = &scte35.SpliceTime{}
				}
			}
		}
	case *scte35.SpliceSchedule:
		for i := range v.Events {
			e := &v.Events[i]
			comps := func() {
				for n := many(); n > 0; n-- {
					e.Components = append(e.Components, scte35.EventComponent{Tag: num(3, 255), UTCSpliceTime: scte35.NewUTCSpliceTime(num(5, 1<<32-1))})
				}
			}
			if e.SpliceEventCancelIndicator {
				if some() {
					e.Program = &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(num(1234567, 1<<32-1))}
				}
				if some() {
					e.BreakDuration = &scte35.BreakDuration{AutoReturn: some(), Duration: long()}
				}
				if some() {
					e.UniqueProgramID, e.AvailNum, e.AvailsExpected = num(77, 0xFFFF), num(7, 255), num(9, 255)
				}
				e.OutOfNetworkIndicator = some()
				if how != ^uint64(0) && some() {
					comps()
				}
			} else if e.Program != nil && some() {
				comps()
			}
		}
	}
	for _, d := range sis.SpliceDescriptors {
		if v, ok := d.(*scte35.SegmentationDescriptor); ok && v.SegmentationEventCancelIndicator {
			if some() {
				dur := long()
				v.SegmentationDuration = &dur
			}
			if some() {
				v.DeliveryRestrictions = &scte35.DeliveryRestrictions{DeviceRestrictions: num(2, 3), ArchiveAllowedFlag: how != ^uint64(0) && some()}
			}
			if some() {
				for n := many(); n > 0; n-- {
					v.Components = append(v.Components, scte35.SegmentationDescriptorComponent{Tag: num(4, 255), PTSOffset: long()})
				}
			}
			if some() {
				v.SegmentationUPIDs = nil
				for n := many(); n > 0; n-- {
					v.SegmentationUPIDs = append(v.SegmentationUPIDs, scte35.SegmentationUPID{Type: num(9, 15), Value: "left over"})
				}
			}
			if some() {
				v.SegmentationTypeID = num(0x34, 255)
			}
			if some() {
				v.SegmentNum, v.SegmentsExpected = num(1, 255), num(2, 255)
			}
			if some() {
				n := num(3, 255)
				v.SubSegmentNum = &n
			}
			if some() {
				n := num(3, 255)
				v.SubSegmentsExpected = &n
			}
		}
	}
}

// variantBytes draws encodings that are mostly accepted but not canonical:
// random reserved bits, legacy command length, malformed ones for good measure.
func variantBytes(t *rapid.T) []byte {
	s := gen.Section(t, gen.Cfg{WireUPID: true, Encrypt: true})
	if gen.P(t, 30) {
		return malformed(t, s, true)
	}
	opts := ref.EncOpts{}
	if gen.B(t) {
		opts.Res = gen.Reserved(rapid.Uint64().Draw(t, "reserved"))
	}
	if gen.P(t, 30) && s.Cmd.Type != ref.CmdPrivate {
		opts.Legacy = true
	}
	if s.EncAlg != 0 {
		opts.ECRC = gen.Bytes(t, 4, 4)
	}
	b := s.Encode(opts)
	switch gen.N(t, 0, 5) {
	case 0: // other first bits: table_id, indicators, section_length
		b[0] = byte(gen.N(t, 0, 255))
		b[1] ^= byte(gen.N(t, 0, 3))<<6 | byte(gen.N(t, 0, 15))
		b[2] ^= byte(gen.N(t, 0, 255))
		b = ref.FixCRC(b)
	case 1: // an unknown command type
		if s.Cmd.Type == ref.CmdPrivate {
			b[13] = []byte{1, 2, 3, 8, 0x77, 0xFE}[gen.N(t, 0, 5)]
			b = ref.FixCRC(b)
		}
	}
	return b
}

var _ = fmt.Sprint

// checkCanonicalised: what is accepted re-encodes to the canonical form of its
// content, which is stable.
func checkCanonicalised(c dataCase, o *core.Obs) error {
	sis, err := decode(c.Data)
	if err != nil {
		o.Label("rejected")
		return nil
	}
	r := ref.Decode(c.Data)
	if r.Err != ref.OK || r.Loose || !canonicalUPIDs(r.Sec) || r.Encrypted != (r.Sec.EncAlg != 0) || !r.Sec.Fits() {
		o.Label("accepted, left out")
		return nil
	}
	o.Label("accepted")
	if rich(r.Sec) {
		o.NonTrivial()
	}
	e1, err := sis.Encode()
	if err != nil {
		return fail("Encode: %v", err)
	}
	if err := sameBytes(e1, r.Sec.Canonical(), r.Encrypted); err != nil {
		return fail("re-encoding of %s: %v", c.Data, err)
	}
	again, err := decode(e1)
	if err != nil {
		return fail("the re-encoded section is rejected: %v\n%x", err, e1)
	}
	if d := ref.Diff(api.Lines(again), api.Lines(sis)); d != "" {
		return fail("content changed: %s", d)
	}
	e2, err := again.Encode()
	if err != nil {
		return fail("Encode: %v", err)
	}
	return sameBytes(e2, e1, false)
}
