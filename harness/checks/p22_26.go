package checks

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"

	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// ---- P22: tolerated irregularities

type irrCase struct {
	S       *ref.Section `json:"s"`
	Res     uint64       `json:"res"`      // pattern of reserved bits; 0: ones
	TableID int          `json:"table_id"` // -1: as it is
	Ind     int          `json:"ind"`      // xor of the two indicators
	SecLen  int          `json:"sec_len"`  // xor of section_length
	Legacy  bool         `json:"legacy"`
	Stuff   ref.Hex      `json:"stuff"`
}

func genIrr(t *rapid.T) irrCase {
	c := irrCase{S: gen.Section(t, gen.Cfg{WireUPID: true, NoStuff: gen.B(t), MaxBytes: 3900}), TableID: -1}
	if gen.P(t, 60) {
		c.Res = rapid.Uint64().Draw(t, "reserved") | 1
	}
	if gen.P(t, 40) {
		c.TableID = gen.N(t, 0, 255)
	}
	if gen.P(t, 40) {
		c.Ind = gen.N(t, 0, 3)
	}
	if gen.P(t, 40) {
		c.SecLen = gen.N(t, 0, 4095)
	}
	c.Legacy = gen.P(t, 40) && c.S.Cmd.Type != ref.CmdPrivate
	if gen.P(t, 50) {
		c.Stuff = gen.Bytes(t, 0, 100)
	}
	return c
}

func (c *irrCase) bytes() []byte {
	s := *c.S
	if c.Stuff != nil {
		s.Stuff = c.Stuff
	}
	o := ref.EncOpts{Legacy: c.Legacy}
	if c.Res != 0 {
		o.Res = gen.Reserved(c.Res)
	}
	b := s.Encode(o)
	if c.TableID >= 0 {
		b[0] = byte(c.TableID)
	}
	b[1] ^= byte(c.Ind) << 6
	b[1] ^= byte(c.SecLen >> 8)
	b[2] ^= byte(c.SecLen)
	return ref.FixCRC(b)
}

func checkIrregular(c irrCase, o *core.Obs) error {
	if rich(c.S) {
		o.NonTrivial()
	}
	o.LabelIf(c.Res != 0, "other reserved bits")
	o.LabelIf(c.TableID >= 0, "other table_id")
	o.LabelIf(c.Ind != 0, "other indicators")
	o.LabelIf(c.SecLen != 0, "other section_length")
	o.LabelIf(c.Legacy, "legacy command length")
	o.LabelIf(c.Stuff != nil, "other stuffing")
	o.Label(fmt.Sprintf("command %#02x", c.S.Cmd.Type))
	b := c.bytes()
	sis, err := decode(b)
	if err != nil {
		return fail("the variant is rejected: %v\nvariant %x\nregular %x", err, b, c.S.Canonical())
	}
	base, err := decode(c.S.Canonical())
	if err != nil {
		return fail("the regular signal is rejected: %v\n%x", err, c.S.Canonical())
	}
	if d := ref.Diff(api.Lines(sis), api.Lines(base)); d != "" {
		return fail("the variant has other content: %s\nvariant %x\nregular %x", d, b, c.S.Canonical())
	}
	if err := api.Cmp(sis, c.S); err != nil {
		return fail("%v\n%x", err, b)
	}
	return nil
}

// unkCase is a section with unknown things put between known ones.
type unkCase struct {
	S   *ref.Section `json:"s"`
	At  []int        `json:"at"`            // positions in the loop, increasing
	Unk []ref.Desc   `json:"unk"`           // private descriptors to put there
	Cmd int          `json:"cmd,omitempty"` // unknown command type
	B   ref.Hex      `json:"b,omitempty"`   // its body, at least four bytes
}

func genUnknown(t *rapid.T) unkCase {
	c := unkCase{S: gen.Section(t, gen.Cfg{MaxBytes: 2000})}
	n := gen.N(t, 0, 4)
	at := 0
	for i := 0; i < n; i++ {
		at = gen.N(t, at, len(c.S.Descs))
		d := ref.Desc{Kind: ref.Private}
		switch gen.N(t, 0, 3) {
		case 0: // a tag the standard assigns, under another identifier
			d.Tag = uint32(gen.N(t, 0, 4))
			d.Ident = []uint32{gen.U32(t, 32), 0, 0x43554548, 0x4355454A, 0x49455543, 0xFFFFFFFF}[gen.N(t, 0, 5)]
		case 1, 2: // an unknown tag of SCTE
			d.Tag, d.Ident = uint32(gen.N(t, 5, 255)), ref.CUEI
		default:
			d.Tag, d.Ident = gen.U32(t, 8), gen.U32(t, 32)
		}
		if d.Ident == ref.CUEI && d.Tag <= 4 {
			d.Ident++
		}
		if gen.B(t) { // looks like a real one inside
			k := gen.Descriptor(t, gen.Cfg{NoBulk: true}, 257)
			d.Bytes = k.Encode(ref.EncOpts{})[6:]
		} else {
			d.Bytes = gen.Bytes(t, 0, gen.N(t, 0, 251))
		}
		c.At = append(c.At, at)
		c.Unk = append(c.Unk, d)
	}
	if gen.P(t, 40) || n == 0 {
		for {
			c.Cmd = gen.N(t, 1, 254)
			switch c.Cmd {
			case ref.CmdSchedule, ref.CmdInsert, ref.CmdTime, ref.CmdBandwidth:
				continue
			}
			break
		}
		if gen.B(t) {
			k := gen.Command(t, gen.Cfg{NoBulk: true}, 200)
			c.B = k.Encode(ref.EncOpts{})
		} else {
			c.B = gen.Bytes(t, 4, gen.N(t, 4, 60))
		}
		for len(c.B) < 4 {
			c.B = append(c.B, 0xA5)
		}
	}
	return c
}

func checkUnknown(c unkCase, o *core.Obs) error {
	o.NonTrivial()
	o.Label(fmt.Sprintf("%d unknown descriptors", len(c.Unk)))
	o.LabelIf(c.Cmd != 0, "unknown command type")
	s := *c.S
	if c.Cmd != 0 {
		s.Cmd = ref.Cmd{Type: ref.CmdPrivate, PrivID: binary.BigEndian.Uint32(c.B), Priv: c.B[4:]}
	}
	plain := s
	s.Descs = nil
	for i, k := 0, 0; i <= len(c.S.Descs); i++ {
		for k < len(c.At) && c.At[k] == i {
			s.Descs = append(s.Descs, c.Unk[k])
			k++
		}
		if i < len(c.S.Descs) {
			s.Descs = append(s.Descs, c.S.Descs[i])
		}
	}
	b := s.Canonical()
	if len(b) > 4096 {
		o.Label("too large")
		return nil
	}
	if c.Cmd != 0 {
		b[13] = byte(c.Cmd)
		b = ref.FixCRC(b)
	}
	sis, err := decode(b)
	if err != nil {
		return fail("rejected: %v\n%x", err, b)
	}
	if err := api.Cmp(sis, &s); err != nil {
		return fail("%v\n%x", err, b)
	}
	// without the strangers it is the section without them
	base, err := decode(plain.Canonical())
	if err != nil {
		return fail("rejected: %v\n%x", err, plain.Canonical())
	}
	var rest scte35.SpliceDescriptors
	k := 0
	for i, d := range sis.SpliceDescriptors {
		if k < len(c.At) && i == c.At[k]+k {
			pd, ok := d.(*scte35.PrivateDescriptor)
			if !ok {
				return fail("descriptor %d is a %T, want a private one\n%x", i, d, b)
			}
			if pd.Tag() != c.Unk[k].Tag || pd.Identifier != c.Unk[k].Ident || string(pd.PrivateBytes) != string(c.Unk[k].Bytes) {
				return fail("descriptor %d is %v, want %+v\n%x", i, api.DescriptorLines(d), c.Unk[k], b)
			}
			k++
			continue
		}
		rest = append(rest, d)
	}
	sis.SpliceDescriptors = rest
	if d := ref.Diff(api.Lines(sis), api.Lines(base)); d != "" {
		return fail("unknown descriptors disturb the rest: %s\n%x", d, b)
	}
	return nil
}

// ---- P25

type codeCase struct {
	What string `json:"what"`
	V    uint32 `json:"v"`
	W    uint32 `json:"w"`
}

func kindOf(id, tag uint32) string {
	if id == ref.CUEI && tag <= 4 {
		return []string{"*scte35.AvailDescriptor", "*scte35.DTMFDescriptor", "*scte35.SegmentationDescriptor", "*scte35.TimeDescriptor", "*scte35.AudioDescriptor"}[tag]
	}
	return "*scte35.PrivateDescriptor"
}

var commandKinds = map[uint32]string{0: "*scte35.SpliceNull", 4: "*scte35.SpliceSchedule", 5: "*scte35.SpliceInsert", 6: "*scte35.TimeSignal",
	7: "*scte35.BandwidthReservation"}

func commandKind(v uint32) string {
	if k, ok := commandKinds[v]; ok {
		return k
	}
	return "*scte35.PrivateCommand"
}

func checkCode(c codeCase, o *core.Obs) error {
	o.Label(c.What)
	o.NonTrivial()
	name := func(got, want string) error {
		if !looseName(got, want) {
			return fail("the name of %s %#x is %q, want %q", c.What, c.V, got, want)
		}
		return nil
	}
	plain := func() *ref.Section {
		return &ref.Section{SAP: 3, Tier: 0xFFF, Cmd: ref.Cmd{Type: ref.CmdTime}}
	}
	table := func(s *ref.Section) error {
		b := s.Canonical()
		sis, err := decode(b)
		if err != nil {
			return fail("rejected: %v\n%x", err, b)
		}
		if err := checkTable(sis.Table("", "\t"), "", "\t", s); err != nil {
			return fail("table: %v", err)
		}
		return nil
	}
	seg := func(f func(d *ref.SegDesc)) *ref.Section {
		s := plain()
		d := &ref.SegDesc{Type: 1}
		f(d)
		s.Descs = []ref.Desc{{Kind: ref.Seg, S: d}}
		return s
	}
	switch c.What {
	case "segmentation_type_id":
		d := &scte35.SegmentationDescriptor{SegmentationTypeID: c.V}
		if err := name(d.Name(), ref.SegName(c.V)); err != nil {
			return err
		}
		if c.V > 255 {
			return nil
		}
		return table(seg(func(d *ref.SegDesc) { d.Type = c.V }))
	case "segmentation_upid_type":
		u := ref.UPID{Type: c.V, Raw: ref.Hex("\x00\x00\x00\x00ABCDEFGH")}
		if err := name((&scte35.SegmentationUPID{Type: c.V}).Name(), (&ref.UPID{Type: c.V}).Name()); err != nil {
			return err
		}
		if c.V > 255 {
			return nil
		}
		if c.V == 0x0D {
			return table(seg(func(d *ref.SegDesc) {
				d.UPIDs = []ref.UPID{{Type: 9, Raw: ref.Hex("a")}, {Type: 0x0F, Raw: ref.Hex("b")}}
			}))
		}
		lu := scte35.NewSegmentationUPID(c.V, append([]byte{}, u.Raw...))
		if err := name(lu.Name(), u.Name()); err != nil {
			return err
		}
		if c.V == 0x0C {
			copy(u.Raw, "MPUX")
		} else if c.V != 0x0A && c.V != 0x08 {
			copy(u.Raw, "text")
		}
		if c.V == 0x08 {
			u.Raw = u.Raw[:8]
		}
		return table(seg(func(d *ref.SegDesc) { d.UPIDs = []ref.UPID{u} }))
	case "EIDR prefix":
		for _, tail := range []string{"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", "\x14\x75/\x14\x76\xFF\xFF\xFF\xFF\xFF"} {
			u := ref.UPID{Type: 0x0A, Raw: append(ref.Hex{byte(c.V >> 8), byte(c.V)}, tail...)}
			lu := scte35.NewSegmentationUPID(0x0A, u.Raw)
			if err := name(lu.Name(), u.Name()); err != nil {
				return err
			}
		}
		return nil
	case "sap_type":
		if err := name((&scte35.SpliceInfoSection{SAPType: c.V}).SAPTypeName(), ref.SAPName(c.V)); err != nil {
			return err
		}
		if c.V > 3 {
			return nil
		}
		s := plain()
		s.SAP = c.V
		return table(s)
	case "encryption_algorithm":
		s := plain()
		s.EncAlg = c.V
		return table(s)
	case "device_restrictions":
		return table(seg(func(d *ref.SegDesc) { d.Restr = &ref.Restr{Device: c.V} }))
	case "splice_command_type":
		cmd := scte35.NewSpliceCommand(c.V)
		if g := fmt.Sprintf("%T", cmd); g != commandKind(c.V) {
			return fail("NewSpliceCommand(%#x) is a %s, want %s", c.V, g, commandKind(c.V))
		}
		want := c.V
		if _, ok := commandKinds[c.V]; !ok {
			want = 0xFF
		}
		if cmd.Type() != want {
			return fail("NewSpliceCommand(%#x).Type() is %#x", c.V, cmd.Type())
		}
		if c.V > 255 {
			return nil
		}
		// in a signal
		bodies := map[uint32]ref.Cmd{0: {}, 4: {Type: 4}, 5: {Type: 5, Insert: &ref.Insert{Cancel: true}}, 6: {Type: 6}, 7: {Type: 7}}
		s := plain()
		var known bool
		if s.Cmd, known = bodies[c.V]; !known {
			s.Cmd = ref.Cmd{Type: 0xFF, PrivID: 0x01020304, Priv: ref.Hex{5, 6}}
		}
		b := s.Canonical()
		b[13] = byte(c.V)
		b = ref.FixCRC(b)
		sis, err := decode(b)
		if err != nil {
			return fail("rejected: %v\n%x", err, b)
		}
		if g := fmt.Sprintf("%T", sis.SpliceCommand); g != commandKind(c.V) {
			return fail("splice_command_type %#x decodes to a %s, want %s", c.V, g, commandKind(c.V))
		}
		if sis.SpliceCommand.Type() != want {
			return fail("splice_command_type %#x decodes to type %#x", c.V, sis.SpliceCommand.Type())
		}
		return nil
	case "splice_descriptor_tag":
		d := scte35.NewSpliceDescriptor(c.W, c.V)
		if g := fmt.Sprintf("%T", d); g != kindOf(c.W, c.V) {
			return fail("NewSpliceDescriptor(%#x, %#x) is a %s, want %s", c.W, c.V, g, kindOf(c.W, c.V))
		}
		if p, ok := d.(*scte35.PrivateDescriptor); ok {
			if p.Identifier != c.W {
				return fail("NewSpliceDescriptor(%#x, %#x) has identifier %#x", c.W, c.V, p.Identifier)
			}
		} else if d.Tag() != c.V {
			return fail("NewSpliceDescriptor(%#x, %#x).Tag() is %#x", c.W, c.V, d.Tag())
		}
		if c.V > 255 {
			return nil
		}
		s := plain()
		kinds := []ref.Desc{{Kind: ref.Avail}, {Kind: ref.DTMF}, {Kind: ref.Seg, S: &ref.SegDesc{Cancel: true}}, {Kind: ref.Time}, {Kind: ref.Audio}}
		if c.W == ref.CUEI && c.V <= 4 {
			s.Descs = []ref.Desc{kinds[c.V]}
		} else {
			s.Descs = []ref.Desc{{Kind: ref.Private, Tag: c.V, Ident: c.W, Bytes: ref.Hex{9}}}
		}
		b := s.Canonical()
		sis, err := decode(b)
		if err != nil {
			return fail("rejected: %v\n%x", err, b)
		}
		if len(sis.SpliceDescriptors) != 1 {
			return fail("%d descriptors decoded from\n%x", len(sis.SpliceDescriptors), b)
		}
		d = sis.SpliceDescriptors[0]
		if g := fmt.Sprintf("%T", d); g != kindOf(c.W, c.V) || d.Tag() != c.V {
			return fail("tag %#x identifier %#x decodes to a %s of tag %#x, want %s", c.V, c.W, g, d.Tag(), kindOf(c.W, c.V))
		}
		return nil
	}
	return &core.HarnessError{Msg: c.What}
}

func allCodes(yield func(codeCase) bool) bool {
	big := []uint32{256, 257, 0x110, 0x130, 0x105, 0x10A, 0x10000, 0x1000010, 0x7FFFFFFF, 0x80000010, 0xFFFFFFFF, 0xFFFFFF05}
	for _, what := range []string{"segmentation_type_id", "segmentation_upid_type", "sap_type", "splice_command_type"} {
		for v := uint32(0); v < 256; v++ {
			if !yield(codeCase{what, v, 0}) {
				return false
			}
		}
		for _, v := range big {
			if !yield(codeCase{what, v, 0}) {
				return false
			}
		}
	}
	for v := uint32(0); v < 64; v++ {
		if !yield(codeCase{"encryption_algorithm", v, 0}) {
			return false
		}
	}
	for v := uint32(0); v < 4; v++ {
		if !yield(codeCase{"device_restrictions", v, 0}) {
			return false
		}
	}
	for v := uint32(0); v < 65536; v++ {
		if !yield(codeCase{"EIDR prefix", v, 0}) {
			return false
		}
	}
	ids := []uint32{ref.CUEI, 0, 1, 0xFFFFFFFF, 0x49455543, 0x63756569, ref.CUEI & 0xFFFF, 0x45490000}
	for k := 0; k < 32; k++ {
		ids = append(ids, ref.CUEI^1<<uint(k))
	}
	for _, id := range ids {
		for v := uint32(0); v < 256; v++ {
			if !yield(codeCase{"splice_descriptor_tag", v, id}) {
				return false
			}
		}
	}
	for _, v := range big {
		if !yield(codeCase{"splice_descriptor_tag", v, ref.CUEI}) {
			return false
		}
	}
	return true
}

// ---- P26

// bitAt reads bit n of byte i.
func bitAt(b []byte, i, n int) bool { return b[i]>>uint(n)&1 == 1 }

// checkAccessors compares what a section reports with bits picked from bin,
// its encoding.
func checkAccessors(sis *scte35.SpliceInfoSection, s *ref.Section, bin []byte) error {
	var bad error
	eq := func(what string, got, want any) {
		if bad == nil && got != want {
			bad = fail("%s is %v, the encoding says %v\n%x", what, got, want, bin)
		}
	}
	eq("EncryptedPacketFlag", sis.EncryptedPacketFlag(), bitAt(bin, 4, 7))
	l := layoutOf(s)
	c := bin[l.cmdAt:]
	if sis.SpliceCommand == nil {
		return fail("no command")
	}
	eq("command Type", sis.SpliceCommand.Type(), uint32(bin[13]))
	switch v := sis.SpliceCommand.(type) {
	case *scte35.TimeSignal:
		eq("TimeSignal.SpliceTime.TimeSpecifiedFlag", v.SpliceTime.TimeSpecifiedFlag(), bitAt(c, 0, 7))
	case *scte35.PrivateCommand:
		eq("PrivateCommand.IdentifierString", v.IdentifierString(), string(c[:4]))
	case *scte35.SpliceInsert:
		if bitAt(c, 4, 7) {
			eq("TimeSpecifiedFlag of a cancelled insert", v.TimeSpecifiedFlag(), false)
			break
		}
		program, immediate := bitAt(c, 5, 6), bitAt(c, 5, 4)
		eq("ProgramSpliceFlag", v.ProgramSpliceFlag(), program)
		eq("DurationFlag", v.DurationFlag(), bitAt(c, 5, 5))
		spec := program && !immediate && bitAt(c, 6, 7)
		eq("TimeSpecifiedFlag", v.TimeSpecifiedFlag(), spec)
		eq("Program.TimeSpecifiedFlag", v.Program.TimeSpecifiedFlag(), spec)
		if program {
			eq("Program.SpliceTime.TimeSpecifiedFlag", v.Program.SpliceTime.TimeSpecifiedFlag(), spec)
		} else {
			at := 7
			for i := range v.Components {
				at++ // component_tag
				spec := false
				if !immediate {
					spec = bitAt(c, at, 7)
					if spec {
						at += 5
					} else {
						at++
					}
				}
				eq(fmt.Sprintf("Components[%d].TimeSpecifiedFlag", i), v.Components[i].TimeSpecifiedFlag(), spec)
				eq(fmt.Sprintf("Components[%d].SpliceTime.TimeSpecifiedFlag", i), v.Components[i].SpliceTime.TimeSpecifiedFlag(), spec)
			}
		}
	case *scte35.SpliceSchedule:
		at := 1
		for i := range v.Events {
			e := &v.Events[i]
			if bitAt(c, at+4, 7) {
				at += 5
				continue
			}
			program, brk := bitAt(c, at+5, 6), bitAt(c, at+5, 5)
			eq(fmt.Sprintf("Events[%d].ProgramSpliceFlag", i), e.ProgramSpliceFlag(), program)
			eq(fmt.Sprintf("Events[%d].DurationFlag", i), e.DurationFlag(), brk)
			at += 6
			if program {
				eq(fmt.Sprintf("Events[%d] seconds", i), e.Program.UTCSpliceTime.GPSSeconds(), binary.BigEndian.Uint32(c[at:]))
				at += 4
			} else {
				n := int(c[at])
				at++
				for j := 0; j < n; j++ {
					eq(fmt.Sprintf("Events[%d].Components[%d] seconds", i, j), e.Components[j].UTCSpliceTime.GPSSeconds(), binary.BigEndian.Uint32(c[at+1:]))
					at += 5
				}
			}
			if brk {
				at += 5
			}
			at += 4
		}
	}
	if len(sis.SpliceDescriptors) != len(s.Descs) {
		return fail("%d descriptors", len(sis.SpliceDescriptors))
	}
	for i, d := range sis.SpliceDescriptors {
		b := bin[l.descs[i]:]
		eq(fmt.Sprintf("SpliceDescriptors[%d].Tag", i), d.Tag(), uint32(b[0]))
		switch v := d.(type) {
		case *scte35.PrivateDescriptor:
			eq(fmt.Sprintf("SpliceDescriptors[%d].IdentifierString", i), v.IdentifierString(), string(b[2:6]))
		case *scte35.SegmentationDescriptor:
			if bitAt(b, 10, 7) {
				continue
			}
			eq("ProgramSegmentationFlag", v.ProgramSegmentationFlag(), bitAt(b, 11, 7))
			eq("SegmentationDurationFlag", v.SegmentationDurationFlag(), bitAt(b, 11, 6))
			eq("DeliveryNotRestrictedFlag", v.DeliveryNotRestrictedFlag(), bitAt(b, 11, 5))
			at := 12
			if !bitAt(b, 11, 7) {
				at += 1 + 6*int(b[at])
			}
			if bitAt(b, 11, 6) {
				at += 5
			}
			eq("SegmentationUpidLength", v.SegmentationUpidLength(), int(b[at+1]))
		}
	}
	return bad
}

type ctorCase struct {
	PTS  uint64   `json:"pts"`
	PTS2 uint64   `json:"pts2"`
	Sec  uint32   `json:"sec"`
	U    ref.UPID `json:"u"`
}

func checkCtors(c ctorCase, o *core.Obs) error {
	o.NonTrivial()
	enc := func(cmd scte35.SpliceCommand) ([]byte, error) {
		return (&scte35.SpliceInfoSection{SAPType: 3, Tier: 0xFFF, SpliceCommand: cmd}).Encode()
	}
	sec := func(cmd ref.Cmd) *ref.Section { return &ref.Section{SAP: 3, Tier: 0xFFF, Cmd: cmd} }

	ts, ts2 := scte35.NewTimeSignal(c.PTS), scte35.NewTimeSignal(c.PTS2)
	m := ref.Cmd{Type: ref.CmdTime, PTS: &c.PTS}
	if d := ref.Diff(api.CommandLines(ts), m.Lines()); d != "" {
		return fail("NewTimeSignal(%d): %s", c.PTS, d)
	}
	if !ts.SpliceTime.TimeSpecifiedFlag() {
		return fail("NewTimeSignal(%d) specifies no time", c.PTS)
	}
	b, err := enc(ts)
	if err != nil {
		return fail("encode: %v", err)
	}
	if err := sameBytes(b, sec(m).Canonical(), false); err != nil {
		return fail("NewTimeSignal(%d): %v", c.PTS, err)
	}
	*ts2.SpliceTime.PTSTime = 0
	if *ts.SpliceTime.PTSTime != c.PTS {
		return fail("two time signals share their time")
	}

	p, p2 := scte35.NewSpliceInsertProgram(c.PTS), scte35.NewSpliceInsertProgram(c.PTS2)
	*p2.SpliceTime.PTSTime = 0
	if !p.TimeSpecifiedFlag() {
		return fail("NewSpliceInsertProgram(%d) specifies no time", c.PTS)
	}
	im := ref.Cmd{Type: ref.CmdInsert, Insert: &ref.Insert{ID: 1, Program: true, PTS: &c.PTS}}
	ins := &scte35.SpliceInsert{SpliceEventID: 1, Program: p}
	if d := ref.Diff(api.CommandLines(ins), im.Lines()); d != "" {
		return fail("NewSpliceInsertProgram(%d): %s", c.PTS, d)
	}
	if b, err = enc(ins); err != nil {
		return fail("encode: %v", err)
	}
	if err := sameBytes(b, sec(im).Canonical(), false); err != nil {
		return fail("NewSpliceInsertProgram(%d): %v", c.PTS, err)
	}

	u := scte35.NewUTCSpliceTime(c.Sec)
	if u.GPSSeconds() != c.Sec || u.Unix() != int64(c.Sec)+315964800 {
		return fail("NewUTCSpliceTime(%d) is %v", c.Sec, u)
	}
	em := ref.Cmd{Type: ref.CmdSchedule, Events: []ref.Event{{ID: 2, Compliance: true, Program: true, UTC: c.Sec}}}
	ss := &scte35.SpliceSchedule{Events: []scte35.Event{{SpliceEventID: 2, EventIDComplianceFlag: true, Program: &scte35.EventProgram{UTCSpliceTime: u}}}}
	if b, err = enc(ss); err != nil {
		return fail("encode: %v", err)
	}
	if err := sameBytes(b, sec(em).Canonical(), false); err != nil {
		return fail("NewUTCSpliceTime(%d): %v", c.Sec, err)
	}

	lu := scte35.NewSegmentationUPID(c.U.Type, append([]byte{}, c.U.Raw...))
	hand := api.UPID(&c.U)
	if g, w := api.UPIDLine(&lu), api.UPIDLine(&hand); g != w {
		return fail("NewSegmentationUPID is %s, by hand %s", g, w)
	}

	// fresh commands and descriptors are the empty ones, and each a new one
	for _, t := range []uint32{0, 4, 5, 6, 7, 0xFF} {
		a, b := scte35.NewSpliceCommand(t), scte35.NewSpliceCommand(t)
		before := strings.Join(api.CommandLines(b), "\n")
		switch v := a.(type) {
		case *scte35.SpliceInsert:
			v.SpliceEventID, v.Program = c.Sec|1, p
		case *scte35.SpliceSchedule:
			v.Events = ss.Events
		case *scte35.TimeSignal:
			v.SpliceTime.PTSTime = &c.PTS
		case *scte35.PrivateCommand:
			v.Identifier = c.Sec | 1
		}
		if g := strings.Join(api.CommandLines(b), "\n"); g != before {
			return fail("two results of NewSpliceCommand(%d) are one", t)
		}
		if g := strings.Join(api.CommandLines(scte35.NewSpliceCommand(t)), "\n"); g != before {
			return fail("NewSpliceCommand(%d) is not fresh: %s", t, g)
		}
	}
	for t := uint32(0); t < 6; t++ {
		a := scte35.NewSpliceDescriptor(ref.CUEI, t)
		before := strings.Join(api.DescriptorLines(a), "\n")
		switch v := a.(type) {
		case *scte35.AvailDescriptor:
			v.ProviderAvailID = c.Sec | 1
		case *scte35.DTMFDescriptor:
			v.Preroll, v.DTMFChars = 3, "1"
		case *scte35.SegmentationDescriptor:
			v.SegmentationUPIDs = append(v.SegmentationUPIDs, lu)
		case *scte35.TimeDescriptor:
			v.TAISeconds = uint64(c.Sec) | 1
		case *scte35.AudioDescriptor:
			v.AudioChannels = append(v.AudioChannels, scte35.AudioChannel{})
		case *scte35.PrivateDescriptor:
			v.PrivateTag = 9
		}
		if g := strings.Join(api.DescriptorLines(scte35.NewSpliceDescriptor(ref.CUEI, t)), "\n"); g != before {
			return fail("NewSpliceDescriptor(CUEI, %d) is not fresh: %s", t, g)
		}
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID: "P22",
		Rule: "variants: a section is encoded with drawn reserved bits, table_id, indicators, section_length, stuffing and legacy command length, and " +
			"decoded next to its regular encoding; strangers: unknown descriptors are put between those of a section and its command is given an unknown " +
			"type; sound bytes: damaged signals of P11's kind that are still sound have the content the reference reads; non-trivial: the section " +
			"carries a command with a body or a descriptor, the signal is sound",
		Subs: []*core.Sub{
			core.New("variants", 144000, 1500000, genIrr, checkIrregular),
			core.New("strangers", 96000, 1000000, genUnknown, checkUnknown),
			core.New("sound bytes", 60000, 1000000, func(t *rapid.T) dataCase { return dataCase{anyBytes(t)} }, checkAccepted(false)),
			core.Fuzz("coverage-guided", 2000000, 60, signalSeed, fuzzSignal, checkAccepted(false)),
		},
	})
	core.Register(&core.Prop{
		ID: "P25",
		Rule: "every 8-bit code (every 16-bit EIDR prefix, every 6-bit algorithm, every tag under 40 identifiers), and codes beyond; through the functions " +
			"and through decoded signals and their tables; generated identifiers besides; every constant that names a code, in generated sections; non-trivial: all",
		Assumptions: []string{"names are compared without regard to case; algorithm names by their essential words"},
		Subs: []*core.Sub{
			core.Enum("every code", 77000, 77000, func(_ bool, yield func(codeCase) bool) { allCodes(yield) }, checkCode),
			core.New("generated codes", 20000, 1000000, func(t *rapid.T) codeCase {
				if gen.B(t) {
					return codeCase{"splice_descriptor_tag", gen.U32(t, 8), gen.U32(t, 32)}
				}
				return codeCase{[]string{"segmentation_type_id", "segmentation_upid_type", "sap_type", "splice_command_type"}[gen.N(t, 0, 3)], gen.U32(t, 32), 0}
			}, checkCode),
			core.New("named codes", 20000, 200000, genConst, checkConst),
		},
	})
	core.Register(&core.Prop{
		ID:    "P26",
		Boost: 8,
		Rule: "accessors of built and of decoded sections are compared with bits picked from the reference encoding; constructors with objects built by hand " +
			"and their reference encoding; accessors of absent parts; non-trivial: the section carries a command with a body or a descriptor",
		Subs: []*core.Sub{
			core.New("accessors", 240000, 2400000, genSection(gen.Cfg{Encrypt: true}), func(c secCase, o *core.Obs) error {
				classify(c.S, o)
				if rich(c.S) {
					o.NonTrivial()
				}
				bin := c.S.Canonical()
				sis, err := decode(bin)
				if err != nil && c.S.EncAlg == 0 {
					return fail("rejected: %v", err)
				}
				if err == nil {
					if err := checkAccessors(sis, c.S, bin); err != nil {
						return fail("decoded: %v", err)
					}
				}
				if err := checkAccessors(api.Section(c.S), c.S, bin); err != nil {
					return fail("built: %v", err)
				}
				return nil
			}),
			core.New("constructors", 48000, 480000, func(t *rapid.T) ctorCase {
				return ctorCase{gen.U(t, 33), gen.U(t, 33), gen.U32(t, 32), gen.UPID(t, gen.Cfg{}, 0, 40, false)}
			}, checkCtors),
			core.Enum("absent parts", 1, 1, func(_ bool, yield func(int) bool) { yield(0) }, func(_ int, o *core.Obs) error {
				o.NonTrivial()
				for n, f := range map[string]func() bool{
					"SpliceInsert":          (*scte35.SpliceInsert)(nil).TimeSpecifiedFlag,
					"SpliceInsertComponent": (*scte35.SpliceInsertComponent)(nil).TimeSpecifiedFlag,
					"SpliceInsertProgram":   (*scte35.SpliceInsertProgram)(nil).TimeSpecifiedFlag,
					"SpliceTime":            (*scte35.SpliceTime)(nil).TimeSpecifiedFlag,
					"empty insert":          (&scte35.SpliceInsert{}).TimeSpecifiedFlag,
					"empty component":       (&scte35.SpliceInsertComponent{}).TimeSpecifiedFlag,
					"empty program":         (&scte35.SpliceInsertProgram{}).TimeSpecifiedFlag,
					"empty time":            (&scte35.SpliceTime{}).TimeSpecifiedFlag,
				} {
					if f() {
						return fail("TimeSpecifiedFlag of an absent or %s is true", n)
					}
				}
				return nil
			}),
		},
	})
}
