// Package ref is an independent model of SCTE 35 (2022b) splice_info_sections:
// its own data structure, its own bit-level encoder and decoder, its own CRC,
// its own rendering of the XML and JSON documents.  It shares no code with the
// package under test.
package ref

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
)

// Hex is a byte string written in hexadecimal in JSON.
type Hex []byte

func (h Hex) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(h)), nil }
func (h *Hex) UnmarshalText(b []byte) error {
	d, err := hex.DecodeString(string(b))
	if err != nil {
		return err
	}
	*h = d
	return nil
}
func (h Hex) String() string { return hex.EncodeToString(h) }

// Command types.
const (
	CmdNull      = 0x00
	CmdSchedule  = 0x04
	CmdInsert    = 0x05
	CmdTime      = 0x06
	CmdBandwidth = 0x07
	CmdPrivate   = 0xFF
)

// Descriptor kinds.
const (
	Avail   = "avail"
	DTMF    = "dtmf"
	Seg     = "seg"
	Time    = "time"
	Audio   = "audio"
	Private = "private"
)

// CUEI is the identifier of SCTE 35 descriptors.
const CUEI = 0x43554549

// Section is one splice_info_section.
type Section struct {
	SAP     uint32 `json:"sap"`
	PV      uint32 `json:"pv"`
	EncAlg  uint32 `json:"enc_alg"`
	PTSAdj  uint64 `json:"pts_adj"`
	CW      uint32 `json:"cw"`
	Tier    uint32 `json:"tier"`
	PreRoll uint32 `json:"pre_roll,omitempty"` // document only
	Cmd     Cmd    `json:"cmd"`
	Descs   []Desc `json:"descs"`
	Stuff   Hex    `json:"stuff,omitempty"`
}

// Cmd is a splice command.
type Cmd struct {
	Type   uint32  `json:"type"`
	PTS    *uint64 `json:"pts,omitempty"`
	Insert *Insert `json:"insert,omitempty"`
	Events []Event `json:"events,omitempty"`
	PrivID uint32  `json:"priv_id,omitempty"`
	Priv   Hex     `json:"priv,omitempty"`
}

// Break is a break_duration().
type Break struct {
	Auto bool   `json:"auto"`
	Dur  uint64 `json:"dur"`
}

// Comp is a component of a splice_insert.
type Comp struct {
	Tag uint32  `json:"tag"`
	PTS *uint64 `json:"pts,omitempty"`
}

// Insert is a splice_insert().
type Insert struct {
	ID        uint32  `json:"id"`
	Cancel    bool    `json:"cancel"`
	OON       bool    `json:"oon"`
	Program   bool    `json:"program"`
	Immediate bool    `json:"immediate"`
	PTS       *uint64 `json:"pts,omitempty"` // program mode
	Comps     []Comp  `json:"comps,omitempty"`
	Break     *Break  `json:"break,omitempty"`
	UPI       uint32  `json:"upi"`
	Num       uint32  `json:"num"`
	Exp       uint32  `json:"exp"`
}

// EvComp is a component of a scheduled event.
type EvComp struct {
	Tag uint32 `json:"tag"`
	UTC uint32 `json:"utc"`
}

// Event is one event of a splice_schedule().
type Event struct {
	ID         uint32   `json:"id"`
	Cancel     bool     `json:"cancel"`
	Compliance bool     `json:"compliance"` // logical value: true = compliant (bit 0)
	OON        bool     `json:"oon"`
	Program    bool     `json:"program"`
	UTC        uint32   `json:"utc"`
	Comps      []EvComp `json:"comps,omitempty"`
	Break      *Break   `json:"break,omitempty"`
	UPI        uint32   `json:"upi"`
	Num        uint32   `json:"num"`
	Exp        uint32   `json:"exp"`
}

// Restr is the delivery restrictions of a segmentation descriptor.
type Restr struct {
	Web      bool   `json:"web"`
	Regional bool   `json:"regional"`
	Archive  bool   `json:"archive"`
	Device   uint32 `json:"device"`
}

// SegComp is a segmentation descriptor component.
type SegComp struct {
	Tag uint32 `json:"tag"`
	Off uint64 `json:"off"`
}

// UPID is a segmentation_upid as it appears on the wire.
type UPID struct {
	Type uint32 `json:"type"`
	Raw  Hex    `json:"raw"`
	// Fmt, if set, is the format a section that did not come from binary
	// states; it may be empty.
	Fmt *string `json:"fmt,omitempty"`
}

// Chan is an audio channel.
type Chan struct {
	Tag  uint32 `json:"tag"`
	ISO  Hex    `json:"iso"`
	Mode uint32 `json:"mode"`
	Num  uint32 `json:"num"`
	Full bool   `json:"full"`
}

// Desc is a splice descriptor.
type Desc struct {
	Kind string `json:"kind"`

	AvailID uint32 `json:"avail_id,omitempty"`

	Preroll uint32 `json:"preroll,omitempty"`
	Chars   Hex    `json:"chars,omitempty"`

	TAI    uint64 `json:"tai,omitempty"`
	NS     uint32 `json:"ns,omitempty"`
	Offset uint32 `json:"offset,omitempty"`

	Chans []Chan `json:"chans,omitempty"`

	Tag   uint32 `json:"tag,omitempty"`
	Ident uint32 `json:"ident,omitempty"`
	Bytes Hex    `json:"bytes,omitempty"`

	S *SegDesc `json:"seg,omitempty"`
}

// SegDesc is a segmentation_descriptor().
type SegDesc struct {
	ID         uint32    `json:"id"`
	Cancel     bool      `json:"cancel"`
	Compliance bool      `json:"compliance"`
	Restr      *Restr    `json:"restr,omitempty"`
	Comps      []SegComp `json:"comps,omitempty"`
	Dur        *uint64   `json:"dur,omitempty"`
	UPIDs      []UPID    `json:"upids,omitempty"`
	Type       uint32    `json:"type"`
	Num        uint32    `json:"num"`
	Exp        uint32    `json:"exp"`
	SubNum     *uint32   `json:"sub_num,omitempty"`
	SubExp     *uint32   `json:"sub_exp,omitempty"`
}

// SubSegTypes are the segmentation types that may carry sub-segment fields.
var SubSegTypes = map[uint32]bool{0x30: true, 0x32: true, 0x34: true, 0x36: true, 0x38: true, 0x3A: true, 0x44: true, 0x46: true}

// U64 and U32 return pointers.
func U64(v uint64) *uint64 { return &v }
func U32(v uint32) *uint32 { return &v }

func pu64(p *uint64) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}

func pu32(p *uint32) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}

func (b *Break) str() string {
	if b == nil {
		return "-"
	}
	return fmt.Sprintf("{auto=%v dur=%d}", b.Auto, b.Dur)
}

// Lines lists every meaningful field of the section, one per line, in a
// normal form: two sections carry the same information iff their Lines agree.
func (s *Section) Lines() []string {
	var out []string
	p := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	p("sap=%d", s.SAP)
	p("protocol_version=%d", s.PV)
	p("encryption_algorithm=%d", s.EncAlg)
	p("pts_adjustment=%d", s.PTSAdj)
	p("cw_index=%d", s.CW)
	p("tier=%d", s.Tier)
	out = append(out, s.Cmd.Lines()...)
	p("descriptors=%d", len(s.Descs))
	for i := range s.Descs {
		for _, l := range s.Descs[i].Lines() {
			p("desc[%d].%s", i, l)
		}
	}
	return out
}

// Lines lists the fields of the command.
func (c *Cmd) Lines() []string {
	var out []string
	p := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	p("command_type=%d", c.Type)
	switch c.Type {
	case CmdTime:
		p("time_signal.pts=%s", pu64(c.PTS))
	case CmdInsert:
		i := c.Insert
		p("insert.id=%d", i.ID)
		p("insert.cancel=%v", i.Cancel)
		if i.Cancel {
			break
		}
		p("insert.oon=%v", i.OON)
		p("insert.program=%v", i.Program)
		p("insert.immediate=%v", i.Immediate)
		if i.Program {
			p("insert.pts=%s", pu64(i.PTS))
		} else {
			p("insert.components=%d", len(i.Comps))
			for j, k := range i.Comps {
				p("insert.comp[%d]=tag %d pts %s", j, k.Tag, pu64(k.PTS))
			}
		}
		p("insert.break=%s", i.Break.str())
		p("insert.unique_program_id=%d", i.UPI)
		p("insert.avail_num=%d", i.Num)
		p("insert.avails_expected=%d", i.Exp)
	case CmdSchedule:
		p("schedule.events=%d", len(c.Events))
		for n, e := range c.Events {
			p("event[%d].id=%d", n, e.ID)
			p("event[%d].cancel=%v", n, e.Cancel)
			p("event[%d].compliance=%v", n, e.Compliance)
			if e.Cancel {
				continue
			}
			p("event[%d].oon=%v", n, e.OON)
			p("event[%d].program=%v", n, e.Program)
			if e.Program {
				p("event[%d].utc=%d", n, e.UTC)
			} else {
				p("event[%d].components=%d", n, len(e.Comps))
				for j, k := range e.Comps {
					p("event[%d].comp[%d]=tag %d utc %d", n, j, k.Tag, k.UTC)
				}
			}
			p("event[%d].break=%s", n, e.Break.str())
			p("event[%d].unique_program_id=%d", n, e.UPI)
			p("event[%d].avail_num=%d", n, e.Num)
			p("event[%d].avails_expected=%d", n, e.Exp)
		}
	case CmdPrivate:
		p("private_command.id=%d", c.PrivID)
		p("private_command.bytes=%s", c.Priv)
	}
	return out
}

// Lines lists the fields of the descriptor.
func (d *Desc) Lines() []string {
	var out []string
	p := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	p("kind=%s", d.Kind)
	switch d.Kind {
	case Avail:
		p("provider_avail_id=%d", d.AvailID)
	case DTMF:
		p("preroll=%d", d.Preroll)
		p("chars=%q", string(d.Chars))
	case Time:
		p("tai_seconds=%d", d.TAI)
		p("tai_ns=%d", d.NS)
		p("utc_offset=%d", d.Offset)
	case Audio:
		p("channels=%d", len(d.Chans))
		for i, c := range d.Chans {
			p("channel[%d]=tag %d iso %q mode %d num %d full %v", i, c.Tag, string(c.ISO), c.Mode, c.Num, c.Full)
		}
	case Private:
		p("tag=%d", d.Tag)
		p("identifier=%d", d.Ident)
		p("bytes=%s", d.Bytes)
	case Seg:
		s := d.S
		p("event_id=%d", s.ID)
		p("cancel=%v", s.Cancel)
		p("compliance=%v", s.Compliance)
		if s.Cancel {
			break
		}
		if s.Restr == nil {
			p("restrictions=-")
		} else {
			p("restrictions=%+v", *s.Restr)
		}
		p("components=%d", len(s.Comps))
		for i, c := range s.Comps {
			p("comp[%d]=tag %d off %d", i, c.Tag, c.Off)
		}
		p("duration=%s", pu64(s.Dur))
		p("upids=%d", len(s.UPIDs))
		for i, u := range s.UPIDs {
			p("upid[%d]=type %d raw %s", i, u.Type, u.Raw)
		}
		p("type_id=%d", s.Type)
		p("segment_num=%d", s.Num)
		p("segments_expected=%d", s.Exp)
		p("sub_segment_num=%s", pu32(s.SubNum))
		p("sub_segments_expected=%s", pu32(s.SubExp))
	}
	return out
}

// Diff returns the first difference of two line lists, or "".
func Diff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(missing)", "(missing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("got %s, want %s", g, w)
		}
	}
	return ""
}

// Clone makes a deep copy.
func (d Desc) Clone() Desc {
	b, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	var out Desc
	if err := json.Unmarshal(b, &out); err != nil {
		panic(err)
	}
	return out
}
