package checks

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"

	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// ---- P17: UPIDs

type upidCase struct {
	U     ref.UPID   `json:"u"`
	Other []ref.UPID `json:"other,omitempty"` // further UPIDs of a MID
	At    int        `json:"at"`
}

func genUPID(t *rapid.T) upidCase {
	c := gen.Cfg{}
	if gen.B(t) {
		c.Doc = true
	}
	u := gen.UPID(t, c, 1, 60, false)
	switch u.Type {
	case 0x0A, 0x08, 0x0C, 0x05, 0x06:
	default: // any bytes, the special ones often
		if gen.P(t, 40) {
			for i := range u.Raw {
				if gen.P(t, 30) {
					u.Raw[i] = []byte{0, ' ', '\n', '\t', 0x7E, 0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xC2, 0xFF, '/', '.', '<', '&', '"', '\\', '%'}[gen.N(t, 0, 18)]
				}
			}
		}
	}
	k := upidCase{U: u}
	if gen.P(t, 5) { // as many as there is room for
		room := 230 - len(u.Raw)
		for n := gen.N(t, 4, 110); n > 0 && room > 2; n-- {
			o := gen.UPID(t, gen.Cfg{}, 0, min(gen.N(t, 0, 3), room-2), true)
			k.Other = append(k.Other, o)
			room -= 2 + len(o.Raw)
		}
	} else {
		for n := gen.N(t, 0, 3); n > 0; n-- {
			k.Other = append(k.Other, gen.UPID(t, gen.Cfg{}, 0, 30, true))
		}
	}
	k.At = gen.N(t, 0, len(k.Other))
	return k
}

// asciiView is the ASCII rendering of bytes.
func asciiView(b []byte) string {
	out := make([]byte, len(b))
	for i, c := range b {
		out[i] = '.'
		if c >= 0x20 && c <= 0x7E {
			out[i] = c
		}
	}
	return string(out)
}

// checkOneUPID compares a library UPID with the wire one.
func checkOneUPID(got *scte35.SegmentationUPID, u *ref.UPID) error {
	if g, w := api.UPIDLine(got), u.API().Line(); g != w {
		return fail("value of type %#02x bytes %x is %s, want %s", u.Type, []byte(u.Raw), g, w)
	}
	if g, w := got.ASCIIValue(), asciiView(u.Raw); g != w {
		return fail("ASCIIValue of type %#02x bytes %x is %q, want %q", u.Type, []byte(u.Raw), g, w)
	}
	if g, w := got.Name(), u.Name(); !looseName(g, w) {
		return fail("Name of type %#02x bytes %x is %q, want %q", u.Type, []byte(u.Raw), g, w)
	}
	return nil
}

func looseName(g, w string) bool {
	return strings.EqualFold(strings.TrimSpace(g), strings.TrimSpace(w))
}

func checkUPID(c upidCase, o *core.Obs) error {
	o.Label(fmt.Sprintf("type %#02x", c.U.Type))
	o.LabelIf(len(c.Other) > 0, "inside a MID")
	o.LabelIf(len(c.Other) > 16, "inside a MID of many")
	for _, b := range c.U.Raw {
		o.LabelIf(b >= 0x80, "byte above 127")
		o.LabelIf(b < 0x20, "control byte")
		o.LabelIf(b == '/' && c.U.Type == 0x0A, "slash byte in EIDR")
	}
	o.NonTrivial()

	// alone
	lu := scte35.NewSegmentationUPID(c.U.Type, append([]byte{}, c.U.Raw...))
	if err := checkOneUPID(&lu, &c.U); err != nil {
		return fail("NewSegmentationUPID: %v", err)
	}
	all := append([]ref.UPID{}, c.Other...)
	all = append(all[:c.At:c.At], append([]ref.UPID{c.U}, c.Other[c.At:]...)...)
	for _, us := range [][]ref.UPID{{c.U}, all} {
		if len(us) == 1 && len(us[0].Raw) == 0 {
			continue
		}
		d := ref.Desc{Kind: ref.Seg, S: &ref.SegDesc{ID: 7, Type: 0x10, UPIDs: us}}
		s := &ref.Section{SAP: 3, Tier: 0xFFF, Cmd: ref.Cmd{Type: ref.CmdTime}, Descs: []ref.Desc{d}}
		b := s.Canonical()

		sis, err := decode(b)
		if err != nil {
			return fail("rejected: %v\n%x", err, b)
		}
		sd, ok := sis.SpliceDescriptors[0].(*scte35.SegmentationDescriptor)
		if !ok || len(sd.SegmentationUPIDs) != len(us) {
			return fail("decoded UPIDs: %v\n%x", api.DescriptorLines(sis.SpliceDescriptors[0]), b)
		}
		for i := range us {
			if err := checkOneUPID(&sd.SegmentationUPIDs[i], &us[i]); err != nil {
				return fail("decoded UPID %d of %d: %v", i, len(us), err)
			}
		}
		if g, w := sd.SegmentationUpidLength(), d.S.UPIDLength(); g != w {
			return fail("SegmentationUpidLength is %d, want %d", g, w)
		}
		// from the values alone
		for name, x := range map[string]*scte35.SpliceInfoSection{"decoded": sis, "built from values": api.Section(s)} {
			e, err := x.Encode()
			if err != nil {
				return fail("encode (%s): %v", name, err)
			}
			if err := sameBytes(e, b, false); err != nil {
				return fail("bytes not recovered (%s), types %v: %v", name, d.S.UPIDs, err)
			}
		}
		// from values as a user may write them
		alt := api.Section(s)
		changed := false
		for i := range alt.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs {
			u := &alt.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[i]
			switch u.Type {
			case 0x0A:
				u.Value, changed = strings.ToLower(u.Value), true
			case 0x08:
				u.Value, changed = "000"+u.Value, true
			}
		}
		if changed {
			e, err := alt.Encode()
			if err != nil {
				return fail("encode: %v", err)
			}
			if err := sameBytes(e, b, false); err != nil {
				return fail("bytes not recovered from lower-case EIDR or zero-padded TI: %v", err)
			}
		}
	}
	return nil
}

// byteCase is one text UPID of a type holding one byte value (and neighbours).
type byteCase struct {
	Type uint32 `json:"type"`
	B    int    `json:"b"`
}

// ---- P18: time conversions

type span struct {
	From uint64 `json:"from"`
	N    uint64 `json:"n"`
	Step uint64 `json:"step"`
}

// floorNS is floor(t / 90000 s) in nanoseconds; ok tells whether it fits.
func floorNS(t uint64) (int64, bool) {
	hi, lo := bits.Mul64(t, 1000000000)
	if hi >= 90000 {
		return 0, false
	}
	q, _ := bits.Div64(hi, lo, 90000)
	return int64(q), q <= math.MaxInt64
}

// ceilTicks is ceil(d * 90000 / 1e9).
func ceilTicks(d uint64) uint64 {
	hi, lo := bits.Mul64(d, 90000)
	q, r := bits.Div64(hi, lo, 1000000000)
	if r != 0 {
		q++
	}
	return q
}

func checkTick(t uint64) error {
	want, ok := floorNS(t)
	if !ok {
		return nil
	}
	got := scte35.TicksToDuration(t)
	if int64(got) != want {
		return fail("TicksToDuration(%d) = %d ns, want %d ns", t, int64(got), want)
	}
	if back := scte35.DurationToTicks(got); back != t {
		return fail("DurationToTicks(TicksToDuration(%d)) = %d", t, back)
	}
	return nil
}

func checkDuration(d int64) error {
	if got, want := scte35.DurationToTicks(time.Duration(d)), ceilTicks(uint64(d)); got != want {
		return fail("DurationToTicks(%d ns) = %d, want %d", d, got, want)
	}
	return nil
}

func checkGPS(n uint32) error {
	u := scte35.NewUTCSpliceTime(n)
	if u.Unix() != int64(n)+315964800 || u.Nanosecond() != 0 {
		return fail("NewUTCSpliceTime(%d) is %d.%09d s after 1970, want %d", n, u.Unix(), u.Nanosecond(), int64(n)+315964800)
	}
	if g := u.GPSSeconds(); g != n {
		return fail("GPSSeconds of NewUTCSpliceTime(%d) is %d", n, g)
	}
	return nil
}

type tickCase struct {
	T uint64 `json:"t"`
	D int64  `json:"d"`
	B uint64 `json:"b"`
	G uint32 `json:"g"`
	Z int    `json:"z"`
}

// ---- P19

func wantDuration(s *ref.Section) time.Duration {
	var ticks uint64
	if s.Cmd.Type == ref.CmdInsert && s.Cmd.Insert.Break != nil {
		ticks = s.Cmd.Insert.Break.Dur
	} else {
		for i := range s.Descs {
			if d := &s.Descs[i]; d.Kind == ref.Seg && !d.S.Cancel && d.S.Dur != nil {
				ticks += *d.S.Dur
			}
		}
	}
	ns, _ := floorNS(ticks)
	return time.Duration(ns)
}

func init() {
	core.Register(&core.Prop{
		ID:    "P17",
		Boost: 12,
		Rule: "cases are UPIDs of every type with bytes in the type's form (special bytes often), alone and as an element of a MID, " +
			"and every byte value in a text UPID of every text type; values, ASCII view, recovered bytes and length are compared " +
			"with reference codecs; non-trivial: all",
		Assumptions: []string{"a MID of fewer than two UPIDs is left out"},
		Subs: []*core.Sub{
			core.New("codec", 160000, 1600000, genUPID, checkUPID,
				upidCase{U: ref.UPID{Type: 0x0A, Raw: ref.Hex{0x14, 0x75, 0x2F, 1, 2, 3, 4, 5, 6, 7, 8, 9}}},
				upidCase{U: ref.UPID{Type: 0x08, Raw: ref.Hex{0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}}},
				upidCase{U: ref.UPID{Type: 0x09, Raw: ref.Hex{0}}}),
			core.Enum("every byte", 256*256, 256*256, func(_ bool, yield func(byteCase) bool) {
				for typ := uint32(0); typ < 256; typ++ {
					for b := 0; b < 256; b++ {
						if !yield(byteCase{typ, b}) {
							return
						}
					}
				}
			}, func(c byteCase, o *core.Obs) error {
				u := ref.UPID{Type: c.Type, Raw: ref.Hex{'a', byte(c.B), 'z', byte(c.B), byte(c.B) ^ 0x20, 'q', byte(c.B), 3}}
				switch c.Type {
				case 0x0D:
					return nil
				case 0x0A:
					u.Raw = append(u.Raw, 0x2E, byte(c.B), 0, 255)
				}
				o.NonTrivial()
				return checkUPID(upidCase{U: u}, o)
			}),
		},
	})

	core.Register(&core.Prop{
		ID: "P18",
		Rule: "all 32-bit GPS second counts; tick counts in strides over the whole 33-bit (thorough: every one) and 40-bit ranges, around " +
			"every second and every power of two, and generated ones up to the range of a duration; generated durations; all against " +
			"128-bit integer arithmetic; non-trivial: all",
		Subs: []*core.Sub{
			core.Enum("every GPS second", 4096, 4096, func(_ bool, yield func(span) bool) {
				for i := uint64(0); i < 4096; i++ {
					if !yield(span{i << 20, 1 << 20, 1}) {
						return
					}
				}
			}, func(c span, o *core.Obs) error {
				o.NonTrivial()
				o.Evals(int(c.N) - 1)
				for i := uint64(0); i < c.N; i++ {
					if err := checkGPS(uint32(c.From + i*c.Step)); err != nil {
						return err
					}
				}
				return nil
			}),
			core.Enum("tick strides", 2049, 9217, func(thorough bool, yield func(span) bool) {
				if thorough {
					for i := uint64(0); i < 8192; i++ { // every 33-bit value
						if !yield(span{i << 20, 1 << 20, 1}) {
							return
						}
					}
				} else {
					for i := uint64(0); i < 1024; i++ { // every 8th, with all residues
						if !yield(span{i<<23 + i%8, 1 << 20, 8}) {
							return
						}
					}
				}
				for i := uint64(0); i < 1024; i++ { // the 40-bit range
					if !yield(span{i<<30 + i%1021, 1 << 16, 16381}) {
						return
					}
				}
				yield(span{(1 << 40) - 1000000, 1000000, 1})
			}, func(c span, o *core.Obs) error {
				o.NonTrivial()
				o.Evals(int(c.N) - 1)
				last := time.Duration(-1)
				for i := uint64(0); i < c.N; i++ {
					t := c.From + i*c.Step
					if err := checkTick(t); err != nil {
						return err
					}
					d := scte35.TicksToDuration(t)
					if d <= last {
						return fail("TicksToDuration(%d) = %d is not above that of %d", t, d, t-c.Step)
					}
					last = d
				}
				return nil
			}),
			core.Enum("tick seconds", 1024, 1024, func(_ bool, yield func(span) bool) {
				for i := uint64(0); i < 1024; i++ {
					if !yield(span{i * 12000, 12000, 90000}) {
						return
					}
				}
			}, func(c span, o *core.Obs) error {
				o.NonTrivial()
				o.Evals(int(c.N)*5 - 1)
				for i := uint64(0); i < c.N; i++ {
					t := (c.From + i) * 90000
					for d := uint64(0); d < 5; d++ {
						if t+d < 2 {
							continue
						}
						if err := checkTick(t + d - 2); err != nil {
							return err
						}
						if err := checkDuration(int64((c.From+i)*1000000000 + d)); err != nil {
							return err
						}
					}
				}
				return nil
			}),
			core.New("generated", 60000, 5000000, func(t *rapid.T) tickCase {
				// up to the tick count whose duration is the largest one
				const top = math.MaxInt64 / 1000000000 * 90000
				return tickCase{T: gen.U(t, 50) % top, D: int64(gen.U(t, 63)), B: gen.U(t, 33), G: gen.U32(t, 32), Z: gen.N(t, -14*60, 14*60)}
			}, func(c tickCase, o *core.Obs) error {
				o.NonTrivial()
				o.LabelIf(c.T >= 1<<33, "over 33 bits")
				o.LabelIf(c.T >= 1<<40, "over 40 bits")
				for _, t := range []uint64{c.T, c.T + 1, c.T + c.B, c.B} {
					if err := checkTick(t); err != nil {
						return err
					}
				}
				for _, d := range []int64{c.D, c.D / 2, c.D >> 10, c.D >> 20} {
					if err := checkDuration(d); err != nil {
						return err
					}
					if d > 0 && scte35.DurationToTicks(time.Duration(d)) < scte35.DurationToTicks(time.Duration(d-1)) {
						return fail("DurationToTicks is not monotonic at %d", d)
					}
				}
				// the instant counts, not the zone it is given in
				u := scte35.NewUTCSpliceTime(c.G)
				u.Time = u.Time.In(time.FixedZone("x", c.Z*60))
				if g := u.GPSSeconds(); g != c.G {
					return fail("GPSSeconds of %v is %d, want %d", u, g, c.G)
				}
				u.Time = u.Time.UTC()
				if g := u.GPSSeconds(); g != c.G {
					return fail("GPSSeconds of %v is %d, want %d", u, g, c.G)
				}
				// an instant within a second counts for that second
				for _, ns := range []int64{c.D % 1000000000, 1, 500000000, 999999999} {
					v := scte35.UTCSpliceTime{Time: u.Time.Add(time.Duration(ns))}
					if g := v.GPSSeconds(); g != c.G {
						return fail("GPSSeconds of %v is %d, want %d", v, g, c.G)
					}
				}
				return nil
			}),
		},
	})

	core.Register(&core.Prop{
		ID:    "P19",
		Boost: 8,
		Rule: "cases are sections, in particular with several segmentation descriptors (with and without durations, cancelled ones " +
			"among them) under every command; Duration is compared with the sum taken from the model; non-trivial: the expected " +
			"duration is not zero",
		Subs: []*core.Sub{
			core.New("duration", 300000, 3000000, func(t *rapid.T) secCase {
				c := gen.Cfg{}
				if gen.P(t, 70) {
					c.NoBulk = true
					c.Kinds = []string{ref.Seg, ref.Seg, ref.Seg, ref.Time, ref.DTMF, ref.Avail}
				}
				s := gen.Section(t, c)
				if gen.P(t, 40) {
					for i := range s.Descs {
						d := &s.Descs[i]
						if d.Kind == ref.Seg && !d.S.Cancel && d.S.Dur == nil && len(d.Encode(ref.EncOpts{})) <= 250 && len(s.Canonical()) <= 4080 {
							d.S.Dur = ref.U64(gen.U(t, 40))
						}
					}
				}
				return secCase{s}
			}, func(c secCase, o *core.Obs) error {
				n := 0
				for i := range c.S.Descs {
					if d := &c.S.Descs[i]; d.Kind == ref.Seg && d.S.Dur != nil {
						n++
					}
				}
				o.LabelIf(n > 1, "several segmentation durations")
				o.LabelIf(c.S.Cmd.Type == ref.CmdInsert && c.S.Cmd.Insert.Break != nil, "break duration")
				o.LabelIf(c.S.Cmd.Type == ref.CmdInsert && c.S.Cmd.Insert.Break != nil && n > 0, "break and segmentation durations")
				o.LabelIf(c.S.Cmd.Type == ref.CmdInsert && c.S.Cmd.Insert.Break == nil && n > 0, "insert without break, segmentation durations")
				o.Label(fmt.Sprintf("command %#02x", c.S.Cmd.Type))
				want := wantDuration(c.S)
				if want != 0 {
					o.NonTrivial()
				}
				sis, err := decode(c.S.Canonical())
				if err != nil {
					return fail("rejected: %v", err)
				}
				if g := sis.Duration(); g != want {
					return fail("Duration of the decoded section is %d ns, want %d ns", g, want)
				}
				b := api.Section(c.S)
				if g := b.Duration(); g != want {
					return fail("Duration of the built section is %d ns, want %d ns", g, want)
				}
				return nil
			}),
		},
	})
}
