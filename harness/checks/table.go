package checks

import (
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode"

	"pgregory.net/rapid"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// row is a line the table must have.
type row struct {
	depth int
	key   string
	match func(string) bool // nil: the row has no value
	want  string
}

// number finds the first number, decimal or hexadecimal, of a value.
func number(v string) (uint64, bool) {
	f := strings.FieldsFunc(v, func(r rune) bool { return r == ' ' || r == ',' || r == '(' || r == ')' })
	if len(f) == 0 {
		return 0, false
	}
	n, err := strconv.ParseUint(f[0], 0, 64)
	return n, err == nil
}

// bracketed is what stands in brackets, or everything.
func bracketed(v string) string {
	if i, k := strings.IndexByte(v, '('), strings.LastIndexByte(v, ')'); i >= 0 && k > i {
		return v[i+1 : k]
	}
	return v
}

// sameWords compares names without regard to case and punctuation, except for
// names that are nothing but punctuation.
func sameWords(g, w string) bool {
	words := func(s string) string {
		return strings.Map(func(r rune) rune {
			if unicode.IsLetter(r) || unicode.IsDigit(r) {
				return unicode.ToLower(r)
			}
			return -1
		}, s)
	}
	return strings.TrimSpace(g) == strings.TrimSpace(w) || words(w) != "" && words(g) == words(w)
}

type rows struct{ out []row }

func (r *rows) open(d int, key string) { r.out = append(r.out, row{d, key + " {", nil, ""}) }
func (r *rows) close(d int)            { r.out = append(r.out, row{d, "}", nil, ""}) }
func (r *rows) num(d int, key string, n uint64, names ...string) {
	r.out = append(r.out, row{d, key, func(v string) bool {
		g, ok := number(v)
		if !ok || g != n {
			return false
		}
		i := strings.IndexAny(v, " ,(")
		if i < 0 {
			return len(names) == 0
		}
		return sameWords(bracketed(v[i:]), strings.Join(names, " "))
	}, fmt.Sprint(n, " ", names)})
}
func (r *rows) ident(d int, id uint32) {
	cc := fourCC(id)
	r.out = append(r.out, row{d, "identifier", func(v string) bool {
		g, ok := number(v)
		return ok && g == uint64(id) && bracketed(v) == cc
	}, fmt.Sprintf("%#x %q", id, cc)})
}
func (r *rows) flag(d int, key string, b bool) {
	r.out = append(r.out, row{d, key, func(v string) bool {
		v = strings.TrimSpace(v)
		return v == map[bool]string{true: "true", false: "false"}[b] || v == map[bool]string{true: "1", false: "0"}[b]
	}, fmt.Sprint(b)})
}
func (r *rows) text(d int, key, s string) {
	r.out = append(r.out, row{d, key, func(v string) bool { return v == s }, s})
}
func (r *rows) bytes(d int, key string, b []byte) {
	r.out = append(r.out, row{d, key, func(v string) bool {
		g, err := hex.DecodeString(strings.TrimPrefix(strings.TrimSpace(v), "0x"))
		return err == nil && string(g) == string(b)
	}, hex.EncodeToString(b)})
}
func (r *rows) utc(d int, key string, gps uint32) {
	want := time.Unix(int64(gps)+315964800, 0)
	r.out = append(r.out, row{d, key, func(v string) bool {
		v = strings.TrimSpace(v)
		for _, f := range []string{time.RFC3339Nano, "2006-01-02 15:04:05 -0700 MST", "2006-01-02 15:04:05 -0700 -0700"} {
			if t, err := time.Parse(f, v); err == nil {
				return t.Equal(want)
			}
		}
		n, err := strconv.ParseUint(v, 10, 64)
		return err == nil && n == uint64(gps)
	}, want.UTC().Format(time.RFC3339)})
}
func (r *rows) seconds(d int, key string, tenths uint32) {
	r.out = append(r.out, row{d, key, func(v string) bool {
		f, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
		return err == nil && math.Abs(f-float64(tenths)/10) < 0.001
	}, fmt.Sprint(float64(tenths) / 10)})
}

func fourCC(v uint32) string {
	return string([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
}

// tableRows gives the rows the standard's syntax tables prescribe for s.
func tableRows(s *ref.Section) []row {
	r := &rows{}
	bin := s.Canonical()
	r.open(0, "splice_info_section()")
	r.num(1, "table_id", 0xFC)
	r.flag(1, "section_syntax_indicator", false)
	r.flag(1, "private_indicator", false)
	r.num(1, "sap_type", uint64(s.SAP), ref.SAPName(s.SAP))
	r.num(1, "section_length", uint64(len(bin)-3))
	r.close(0)
	r.num(0, "protocol_version", uint64(s.PV))
	r.num(0, "encryption_algorithm", uint64(s.EncAlg), ref.EncName(s.EncAlg)...)
	r.num(0, "pts_adjustment", s.PTSAdj)
	r.num(0, "cw_index", uint64(s.CW))
	r.num(0, "tier", uint64(s.Tier))
	r.num(0, "splice_command_length", uint64(s.Cmd.Len()))
	r.num(0, "splice_command_type", uint64(s.Cmd.Type))
	r.command(&s.Cmd)
	loop := 0
	for i := range s.Descs {
		loop += len(s.Descs[i].Encode(ref.EncOpts{}))
	}
	r.num(0, "descriptor_loop_length", uint64(loop))
	for i := range s.Descs {
		r.descriptor(&s.Descs[i])
	}
	return r.out
}

func (r *rows) time(d int, p *uint64) {
	r.flag(d, "time_specified_flag", p != nil)
	if p != nil {
		r.num(d, "pts_time", *p)
	}
}

func (r *rows) brk(d int, b *ref.Break) {
	if b != nil {
		r.flag(d, "auto_return", b.Auto)
		r.num(d, "duration", b.Dur)
	}
}

func (r *rows) command(c *ref.Cmd) {
	switch c.Type {
	case ref.CmdNull:
		r.out = append(r.out, row{0, "splice_null() {}", nil, ""})
	case ref.CmdBandwidth:
		r.out = append(r.out, row{0, "bandwidth_reservation() {}", nil, ""})
	case ref.CmdTime:
		r.open(0, "time_signal()")
		r.time(1, c.PTS)
		r.close(0)
	case ref.CmdPrivate:
		r.open(0, "private_command()")
		r.ident(1, c.PrivID)
		r.bytes(1, "private_byte", c.Priv)
		r.close(0)
	case ref.CmdInsert:
		i := c.Insert
		r.open(0, "splice_insert()")
		r.num(1, "splice_event_id", uint64(i.ID))
		r.flag(1, "splice_event_cancel_indicator", i.Cancel)
		if !i.Cancel {
			r.flag(1, "out_of_network_indicator", i.OON)
			r.flag(1, "program_splice_flag", i.Program)
			r.flag(1, "duration_flag", i.Break != nil)
			r.flag(1, "splice_immediate_flag", i.Immediate)
			if i.Program && !i.Immediate {
				r.time(1, i.PTS)
			}
			if !i.Program {
				r.num(1, "component_count", uint64(len(i.Comps)))
				for j, k := range i.Comps {
					r.open(1, fmt.Sprintf("component[%d]", j))
					r.num(2, "component_tag", uint64(k.Tag))
					if !i.Immediate {
						r.time(2, k.PTS)
					}
					r.close(1)
				}
			}
			r.brk(1, i.Break)
			r.num(1, "unique_program_id", uint64(i.UPI))
			r.num(1, "avail_num", uint64(i.Num))
			r.num(1, "avails_expected", uint64(i.Exp))
		}
		r.close(0)
	case ref.CmdSchedule:
		r.open(0, "splice_schedule()")
		r.num(1, "splice_count", uint64(len(c.Events)))
		for n := range c.Events {
			e := &c.Events[n]
			r.open(1, fmt.Sprintf("event[%d]", n))
			r.num(2, "splice_event_id", uint64(e.ID))
			r.flag(2, "splice_event_cancel_indicator", e.Cancel)
			r.flag(2, "event_id_compliance_flag", e.Compliance)
			if !e.Cancel {
				r.flag(2, "out_of_network_indicator", e.OON)
				r.flag(2, "program_splice_flag", e.Program)
				r.flag(2, "duration_flag", e.Break != nil)
				if e.Program {
					r.utc(2, "utc_splice_time", e.UTC)
				} else {
					r.num(2, "component_count", uint64(len(e.Comps)))
					for j, k := range e.Comps {
						r.open(2, fmt.Sprintf("component[%d]", j))
						r.num(3, "component_tag", uint64(k.Tag))
						r.utc(3, "utc_splice_time", k.UTC)
						r.close(2)
					}
				}
				r.brk(2, e.Break)
				r.num(2, "unique_program_id", uint64(e.UPI))
				r.num(2, "avail_num", uint64(e.Num))
				r.num(2, "avails_expected", uint64(e.Exp))
			}
			r.close(1)
		}
		r.close(0)
	}
}

func (r *rows) descriptor(d *ref.Desc) {
	names := map[string]string{ref.Avail: "avail_descriptor()", ref.DTMF: "dtmf_descriptor()", ref.Seg: "segmentation_descriptor()",
		ref.Time: "time_descriptor()", ref.Audio: "audio_descriptor()", ref.Private: "private_descriptor()"}
	enc := d.Encode(ref.EncOpts{})
	r.open(0, names[d.Kind])
	r.num(1, "splice_descriptor_tag", uint64(enc[0]))
	r.num(1, "descriptor_length", uint64(enc[1]))
	id := uint32(ref.CUEI)
	if d.Kind == ref.Private {
		id = d.Ident
	}
	r.ident(1, id)
	switch d.Kind {
	case ref.Avail:
		r.num(1, "provider_avail_id", uint64(d.AvailID))
	case ref.DTMF:
		r.seconds(1, "preroll", d.Preroll)
		r.num(1, "dtmf_count", uint64(len(d.Chars)))
		r.text(1, "dtmf_chars", string(d.Chars))
	case ref.Time:
		r.num(1, "tai_seconds", d.TAI)
		r.num(1, "tai_ns", uint64(d.NS))
		r.num(1, "utc_offset", uint64(d.Offset))
	case ref.Audio:
		r.num(1, "audio_count", uint64(len(d.Chans)))
		for i, c := range d.Chans {
			r.open(1, fmt.Sprintf("audio_channel[%d]", i))
			r.num(2, "component_tag", uint64(c.Tag))
			r.text(2, "iso_code", string(c.ISO))
			r.num(2, "bit_stream_mode", uint64(c.Mode))
			r.num(2, "num_channels", uint64(c.Num))
			r.flag(2, "full_srvc_audio", c.Full)
			r.close(1)
		}
	case ref.Private:
		r.bytes(1, "private_bytes", d.Bytes)
	case ref.Seg:
		s := d.S
		r.num(1, "segmentation_event_id", uint64(s.ID))
		r.flag(1, "segmentation_event_cancel_indicator", s.Cancel)
		r.flag(1, "segmentation_event_id_compliance_indicator", s.Compliance)
		if !s.Cancel {
			r.flag(1, "program_segmentation_flag", len(s.Comps) == 0)
			r.flag(1, "segmentation_duration_flag", s.Dur != nil)
			r.flag(1, "delivery_not_restricted_flag", s.Restr == nil)
			if s.Restr != nil {
				r.flag(1, "web_delivery_allowed_flag", s.Restr.Web)
				r.flag(1, "no_regional_blackout_flag", s.Restr.Regional)
				r.flag(1, "archive_allowed_flag", s.Restr.Archive)
				r.num(1, "device_restrictions", uint64(s.Restr.Device), ref.DeviceName(s.Restr.Device))
			}
			if len(s.Comps) > 0 {
				r.num(1, "component_count", uint64(len(s.Comps)))
				for i, c := range s.Comps {
					r.open(1, fmt.Sprintf("component[%d]", i))
					r.num(2, "component_tag", uint64(c.Tag))
					r.num(2, "pts_offset", c.Off)
					r.close(1)
				}
			}
			if s.Dur != nil {
				r.num(1, "segmentation_duration", *s.Dur)
			}
			r.num(1, "segmentation_upid_length", uint64(upidLen(s)))
			for i := range s.UPIDs {
				u := &s.UPIDs[i]
				v := u.API()
				r.open(1, fmt.Sprintf("segmentation_upid[%d]", i))
				r.num(2, "segmentation_upid_type", uint64(u.Type), strings.TrimSpace(u.Name()))
				if u.Type == 0x0C {
					fi := fourCC(*v.FI)
					r.out = append(r.out, row{2, "format_identifier", func(g string) bool { return g == fi || bracketed(g) == fi }, fi})
				}
				r.text(2, "segmentation_upid", v.Value)
				r.close(1)
			}
			r.num(1, "segmentation_type_id", uint64(s.Type), ref.SegName(s.Type))
			r.num(1, "segment_num", uint64(s.Num))
			r.num(1, "segments_expected", uint64(s.Exp))
			if s.SubNum != nil {
				r.num(1, "sub_segment_num", uint64(*s.SubNum))
			}
			if s.SubExp != nil {
				r.num(1, "sub_segments_expected", uint64(*s.SubExp))
			}
		}
	}
	r.close(0)
}

// upidLen is the segmentation_upid_length.
func upidLen(s *ref.SegDesc) int {
	if len(s.UPIDs) == 1 {
		return len(s.UPIDs[0].Raw)
	}
	n := 0
	for _, u := range s.UPIDs {
		n += 2 + len(u.Raw)
	}
	return n
}

// checkTable compares a table with the rows s must have.
func checkTable(text, prefix, indent string, s *ref.Section) error {
	want := tableRows(s)
	if !strings.HasSuffix(text, "\n") {
		return fail("the table does not end its last line")
	}
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	for i, l := range lines {
		if i >= len(want) {
			return fail("line %d, %q, is one too many", i, l)
		}
		w := want[i]
		rest, ok := strings.CutPrefix(l, prefix)
		if !ok {
			return fail("line %d, %q, does not start with the prefix %q", i, l, prefix)
		}
		rest, ok = strings.CutPrefix(rest, strings.Repeat(indent, w.depth))
		if !ok {
			return fail("line %d, %q, is not indented %d times (want %s)", i, l, w.depth, w.key)
		}
		if w.match == nil {
			if rest != w.key {
				return fail("line %d is %q, want %q at depth %d", i, l, w.key, w.depth)
			}
			continue
		}
		key, val, ok := strings.Cut(rest, ":")
		if !ok || key != w.key {
			return fail("line %d is %q, want %s at depth %d", i, l, w.key, w.depth)
		}
		val = strings.TrimPrefix(val, " ")
		if !w.match(val) {
			return fail("line %d is %q, want %s %s", i, l, w.key, w.want)
		}
	}
	if len(lines) < len(want) {
		return fail("%s %s is missing", want[len(lines)].key, want[len(lines)].want)
	}
	return nil
}

type tableCase struct {
	S       *ref.Section `json:"s"`
	Prefix  string       `json:"prefix"`
	Indent  string       `json:"indent"`
	Decoded bool         `json:"decoded"`
	Dirty   uint64       `json:"dirty,omitempty"`
}

// oneLine makes identifiers printable most of the time, and never a line break.
func oneLine(t *rapid.T, s *ref.Section) {
	fix := func(v uint32) uint32 {
		raw := gen.P(t, 20)
		var out uint32
		for k := 24; k >= 0; k -= 8 {
			c := byte(v >> uint(k))
			if c == '\n' || (!raw && (c < 0x21 || c > 0x7E)) {
				c = 'A' + c%26
			}
			out = out<<8 | uint32(c)
		}
		return out
	}
	if s.Cmd.Type == ref.CmdPrivate {
		s.Cmd.PrivID = fix(s.Cmd.PrivID)
	}
	for i := range s.Descs {
		if d := &s.Descs[i]; d.Kind == ref.Private && d.Ident != ref.CUEI {
			d.Ident = fix(d.Ident)
			if d.Ident == ref.CUEI {
				d.Ident++
			}
		}
	}
}

// oddText is a prefix that would matter to something that is not meant to read it.
func oddText(t *rapid.T) string {
	out := ""
	for n := gen.N(t, 1, 4); n > 0; n-- {
		out += pick(t, []string{"%", "%d", "%s", "%%", "%!", "{", "}", ": ", "\\", "\\n", "\"", "'", "é", "\t", " ", "<", "&", "$1", "/*", "\u2028", "[0]", "()", "0"})
	}
	return out
}

func genTable(t *rapid.T) tableCase {
	c := tableCase{Decoded: gen.B(t)}
	c.Prefix = []string{"", "", "> ", "\t", "# ", "2024-05-01T00:00:00Z info: ", "  "}[gen.N(t, 0, 6)]
	if gen.P(t, 25) {
		c.Prefix = oddText(t)
	}
	c.Indent = []string{"\t", "\t", "  ", "    ", ". ", "--", "", "%", "%d ", "%%", "\u00A0"}[gen.N(t, 0, 10)]
	c.S = gen.Section(t, gen.Cfg{Table: true, Encrypt: true, NoBulk: gen.P(t, 80)})
	oneLine(t, c.S)
	if !c.Decoded {
		c.S.Stuff = nil
	}
	return c
}

func init() {
	core.Register(&core.Prop{
		ID:    "P20",
		Boost: 8,
		Rule: "sections, built or decoded, are rendered with drawn prefixes and indents; the table is read line by line against the rows the syntax " +
			"tables prescribe (depth, name, value, derived lengths, counts and names; nothing more, nothing less); non-trivial: a command with a body " +
			"or a descriptor",
		Assumptions: []string{"text values hold no line break", "numbers may be spelled in any base, times in any zone"},
		Subs: []*core.Sub{
			core.New("rows", 192000, 1920000, genTable, func(c tableCase, o *core.Obs) error {
				classify(c.S, o)
				if rich(c.S) {
					o.NonTrivial()
				}
				var sis *scte35.SpliceInfoSection
				if c.Decoded {
					var err error
					if sis, err = decode(c.S.Canonical()); err != nil {
						return fail("decode: %v", err)
					}
				} else {
					sis = api.Section(c.S)
				}
				return checkTable(sis.Table(c.Prefix, c.Indent), c.Prefix, c.Indent, c.S)
			}),
			core.New("leftovers", 48000, 480000, func(t *rapid.T) tableCase {
				c := genTable(t)
				c.Decoded = false
				c.S.Stuff = nil
				c.Dirty = drawLeft(t, 100)
				if gen.B(t) { // mostly cancelled things: they leave most off
					c.S.Cmd = gen.Command(t, gen.Cfg{Table: true, NoBulk: true, Cmds: []uint32{ref.CmdInsert, ref.CmdSchedule}}, 200)
				}
				return c
			}, func(c tableCase, o *core.Obs) error {
				o.NonTrivial()
				sis := api.Section(c.S)
				dirty(sis, c.Dirty)
				return checkTable(sis.Table(c.Prefix, c.Indent), c.Prefix, c.Indent, c.S)
			}),
		},
	})
}
