// Package api translates between the reference model and the library's types.
package api

import (
	"fmt"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verifharness/ref"
)

// Section builds the library's value for s directly, field by field, without
// going through any of the library's decoders.
func Section(s *ref.Section) *scte35.SpliceInfoSection {
	out := &scte35.SpliceInfoSection{
		EncryptedPacket:     scte35.EncryptedPacket{EncryptionAlgorithm: s.EncAlg, CWIndex: s.CW},
		SAPType:             s.SAP,
		PreRollMilliSeconds: s.PreRoll,
		PTSAdjustment:       s.PTSAdj,
		ProtocolVersion:     s.PV,
		Tier:                s.Tier,
		SpliceCommand:       Command(&s.Cmd),
	}
	for i := range s.Descs {
		out.SpliceDescriptors = append(out.SpliceDescriptors, Descriptor(&s.Descs[i]))
	}
	return out
}

func cp64(p *uint64) *uint64 {
	if p == nil {
		return nil
	}
	v := *p
	return &v
}

func cp32(p *uint32) *uint32 {
	if p == nil {
		return nil
	}
	v := *p
	return &v
}

func brk(b *ref.Break) *scte35.BreakDuration {
	if b == nil {
		return nil
	}
	return &scte35.BreakDuration{AutoReturn: b.Auto, Duration: b.Dur}
}

// Command builds the library's command.
func Command(c *ref.Cmd) scte35.SpliceCommand {
	switch c.Type {
	case ref.CmdNull:
		return &scte35.SpliceNull{}
	case ref.CmdBandwidth:
		return &scte35.BandwidthReservation{}
	case ref.CmdTime:
		return &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: cp64(c.PTS)}}
	case ref.CmdPrivate:
		return &scte35.PrivateCommand{Identifier: c.PrivID, PrivateBytes: append(scte35.Bytes{}, c.Priv...)}
	case ref.CmdInsert:
		i := c.Insert
		out := &scte35.SpliceInsert{SpliceEventID: i.ID, SpliceEventCancelIndicator: i.Cancel}
		if i.Cancel {
			return out
		}
		out.SpliceImmediateFlag = i.Immediate
		out.OutOfNetworkIndicator = i.OON
		out.UniqueProgramID, out.AvailNum, out.AvailsExpected = i.UPI, i.Num, i.Exp
		out.BreakDuration = brk(i.Break)
		if i.Program {
			out.Program = &scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: cp64(i.PTS)}}
		} else {
			for _, k := range i.Comps {
				cc := scte35.SpliceInsertComponent{Tag: k.Tag}
				if k.PTS != nil {
					cc.SpliceTime = &scte35.SpliceTime{PTSTime: cp64(k.PTS)}
				}
				out.Components = append(out.Components, cc)
			}
		}
		return out
	case ref.CmdSchedule:
		out := &scte35.SpliceSchedule{}
		for _, e := range c.Events {
			o := scte35.Event{SpliceEventID: e.ID, SpliceEventCancelIndicator: e.Cancel, EventIDComplianceFlag: e.Compliance}
			if !e.Cancel {
				o.OutOfNetworkIndicator = e.OON
				o.UniqueProgramID, o.AvailNum, o.AvailsExpected = e.UPI, e.Num, e.Exp
				o.BreakDuration = brk(e.Break)
				if e.Program {
					o.Program = &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(e.UTC)}
				} else {
					for _, k := range e.Comps {
						o.Components = append(o.Components, scte35.EventComponent{Tag: k.Tag, UTCSpliceTime: scte35.NewUTCSpliceTime(k.UTC)})
					}
				}
			}
			out.Events = append(out.Events, o)
		}
		return out
	}
	panic(fmt.Sprintf("api: command type %d", c.Type))
}

// UPID builds the library's UPID.
func UPID(u *ref.UPID) scte35.SegmentationUPID {
	v := u.API()
	return scte35.SegmentationUPID{Type: v.Type, Format: v.Format, FormatIdentifier: cp32(v.FI), Value: v.Value}
}

// Descriptor builds the library's descriptor.
func Descriptor(d *ref.Desc) scte35.SpliceDescriptor {
	switch d.Kind {
	case ref.Avail:
		return &scte35.AvailDescriptor{ProviderAvailID: d.AvailID}
	case ref.DTMF:
		return &scte35.DTMFDescriptor{Preroll: d.Preroll, DTMFChars: string(d.Chars)}
	case ref.Time:
		return &scte35.TimeDescriptor{TAISeconds: d.TAI, TAINS: d.NS, UTCOffset: d.Offset}
	case ref.Audio:
		out := &scte35.AudioDescriptor{}
		for _, c := range d.Chans {
			out.AudioChannels = append(out.AudioChannels, scte35.AudioChannel{ComponentTag: c.Tag, ISOCode: string(c.ISO),
				BitStreamMode: c.Mode, NumChannels: c.Num, FullSrvcAudio: c.Full})
		}
		return out
	case ref.Private:
		return &scte35.PrivateDescriptor{PrivateTag: d.Tag, Identifier: d.Ident, PrivateBytes: append(scte35.Bytes{}, d.Bytes...)}
	case ref.Seg:
		s := d.S
		out := &scte35.SegmentationDescriptor{SegmentationEventID: s.ID, SegmentationEventCancelIndicator: s.Cancel,
			SegmentationEventIDComplianceIndicator: s.Compliance}
		if s.Cancel {
			return out
		}
		if s.Restr != nil {
			out.DeliveryRestrictions = &scte35.DeliveryRestrictions{ArchiveAllowedFlag: s.Restr.Archive,
				WebDeliveryAllowedFlag: s.Restr.Web, NoRegionalBlackoutFlag: s.Restr.Regional, DeviceRestrictions: s.Restr.Device}
		}
		for i := range s.UPIDs {
			out.SegmentationUPIDs = append(out.SegmentationUPIDs, UPID(&s.UPIDs[i]))
		}
		for _, c := range s.Comps {
			out.Components = append(out.Components, scte35.SegmentationDescriptorComponent{Tag: c.Tag, PTSOffset: c.Off})
		}
		out.SegmentationDuration = cp64(s.Dur)
		out.SegmentationTypeID, out.SegmentNum, out.SegmentsExpected = s.Type, s.Num, s.Exp
		out.SubSegmentNum, out.SubSegmentsExpected = cp32(s.SubNum), cp32(s.SubExp)
		return out
	}
	panic("api: kind " + d.Kind)
}

// Lines is the counterpart of ref's APILines: every field the library shows a
// user, in a normal form.
func Lines(sis *scte35.SpliceInfoSection) []string {
	if sis == nil {
		return []string{"nil section"}
	}
	var out []string
	p := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	p("sap=%d", sis.SAPType)
	p("protocol_version=%d", sis.ProtocolVersion)
	p("encryption_algorithm=%d", sis.EncryptedPacket.EncryptionAlgorithm)
	p("pts_adjustment=%d", sis.PTSAdjustment)
	p("cw_index=%d", sis.EncryptedPacket.CWIndex)
	p("tier=%d", sis.Tier)
	out = append(out, CommandLines(sis.SpliceCommand)...)
	p("descriptors=%d", len(sis.SpliceDescriptors))
	for i, d := range sis.SpliceDescriptors {
		for _, l := range DescriptorLines(d) {
			p("desc[%d].%s", i, l)
		}
	}
	return out
}

func s64(p *uint64) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}

func s32(p *uint32) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}

func sbrk(b *scte35.BreakDuration) string {
	if b == nil {
		return "-"
	}
	return fmt.Sprintf("{auto=%v dur=%d}", b.AutoReturn, b.Duration)
}

// CommandLines lists the fields of a command.
func CommandLines(c scte35.SpliceCommand) []string {
	var out []string
	p := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	switch v := c.(type) {
	case nil:
		p("no command")
	case *scte35.SpliceNull:
		p("command_type=0")
	case *scte35.BandwidthReservation:
		p("command_type=7")
	case *scte35.TimeSignal:
		p("command_type=6")
		p("time_signal.pts=%s", s64(v.SpliceTime.PTSTime))
	case *scte35.PrivateCommand:
		p("command_type=255")
		p("private_command.id=%d", v.Identifier)
		p("private_command.bytes=%x", []byte(v.PrivateBytes))
	case *scte35.SpliceInsert:
		p("command_type=5")
		p("insert.id=%d", v.SpliceEventID)
		p("insert.cancel=%v", v.SpliceEventCancelIndicator)
		if v.SpliceEventCancelIndicator {
			break
		}
		p("insert.oon=%v", v.OutOfNetworkIndicator)
		p("insert.program=%v", v.Program != nil)
		p("insert.immediate=%v", v.SpliceImmediateFlag)
		if v.Program != nil {
			p("insert.pts=%s", s64(v.Program.SpliceTime.PTSTime))
		} else {
			p("insert.components=%d", len(v.Components))
			for j, k := range v.Components {
				var t *uint64
				if k.SpliceTime != nil {
					t = k.SpliceTime.PTSTime
				}
				p("insert.comp[%d]=tag %d pts %s", j, k.Tag, s64(t))
			}
		}
		p("insert.break=%s", sbrk(v.BreakDuration))
		p("insert.unique_program_id=%d", v.UniqueProgramID)
		p("insert.avail_num=%d", v.AvailNum)
		p("insert.avails_expected=%d", v.AvailsExpected)
	case *scte35.SpliceSchedule:
		p("command_type=4")
		p("schedule.events=%d", len(v.Events))
		for n := range v.Events {
			e := &v.Events[n]
			p("event[%d].id=%d", n, e.SpliceEventID)
			p("event[%d].cancel=%v", n, e.SpliceEventCancelIndicator)
			p("event[%d].compliance=%v", n, e.EventIDComplianceFlag)
			if e.SpliceEventCancelIndicator {
				continue
			}
			p("event[%d].oon=%v", n, e.OutOfNetworkIndicator)
			p("event[%d].program=%v", n, e.Program != nil)
			if e.Program != nil {
				p("event[%d].utc=%s", n, GPS(e.Program.UTCSpliceTime))
			} else {
				p("event[%d].components=%d", n, len(e.Components))
				for j, k := range e.Components {
					p("event[%d].comp[%d]=tag %d utc %s", n, j, k.Tag, GPS(k.UTCSpliceTime))
				}
			}
			p("event[%d].break=%s", n, sbrk(e.BreakDuration))
			p("event[%d].unique_program_id=%d", n, e.UniqueProgramID)
			p("event[%d].avail_num=%d", n, e.AvailNum)
			p("event[%d].avails_expected=%d", n, e.AvailsExpected)
		}
	default:
		p("command %T", c)
	}
	return out
}

// GPS gives the seconds since the GPS epoch of an instant, computed from the
// instant itself.
func GPS(t scte35.UTCSpliceTime) string {
	if t.Nanosecond() != 0 {
		return fmt.Sprintf("%d.%09d", t.Unix()-315964800, t.Nanosecond())
	}
	return fmt.Sprint(t.Unix() - 315964800)
}

// UPIDLine renders a UPID.
func UPIDLine(u *scte35.SegmentationUPID) string {
	return ref.UPIDValue{Type: u.Type, Format: u.Format, FI: u.FormatIdentifier, Value: u.Value}.Line()
}

// DescriptorLines lists the fields of a descriptor.
func DescriptorLines(d scte35.SpliceDescriptor) []string {
	var out []string
	p := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	switch v := d.(type) {
	case nil:
		p("nil descriptor")
	case *scte35.AvailDescriptor:
		p("kind=avail")
		p("provider_avail_id=%d", v.ProviderAvailID)
	case *scte35.DTMFDescriptor:
		p("kind=dtmf")
		p("preroll=%d", v.Preroll)
		p("chars=%q", v.DTMFChars)
	case *scte35.TimeDescriptor:
		p("kind=time")
		p("tai_seconds=%d", v.TAISeconds)
		p("tai_ns=%d", v.TAINS)
		p("utc_offset=%d", v.UTCOffset)
	case *scte35.AudioDescriptor:
		p("kind=audio")
		p("channels=%d", len(v.AudioChannels))
		for i, c := range v.AudioChannels {
			p("channel[%d]=tag %d iso %q mode %d num %d full %v", i, c.ComponentTag, c.ISOCode, c.BitStreamMode, c.NumChannels, c.FullSrvcAudio)
		}
	case *scte35.PrivateDescriptor:
		p("kind=private")
		p("tag=%d", v.PrivateTag)
		p("identifier=%d", v.Identifier)
		p("bytes=%x", []byte(v.PrivateBytes))
	case *scte35.SegmentationDescriptor:
		p("kind=seg")
		p("event_id=%d", v.SegmentationEventID)
		p("cancel=%v", v.SegmentationEventCancelIndicator)
		p("compliance=%v", v.SegmentationEventIDComplianceIndicator)
		if v.SegmentationEventCancelIndicator {
			break
		}
		if r := v.DeliveryRestrictions; r == nil {
			p("restrictions=-")
		} else {
			p("restrictions=%+v", ref.Restr{Web: r.WebDeliveryAllowedFlag, Regional: r.NoRegionalBlackoutFlag, Archive: r.ArchiveAllowedFlag, Device: r.DeviceRestrictions})
		}
		p("components=%d", len(v.Components))
		for i, c := range v.Components {
			p("comp[%d]=tag %d off %d", i, c.Tag, c.PTSOffset)
		}
		p("duration=%s", s64(v.SegmentationDuration))
		p("upids=%d", len(v.SegmentationUPIDs))
		for i := range v.SegmentationUPIDs {
			p("upid[%d]=%s", i, UPIDLine(&v.SegmentationUPIDs[i]))
		}
		p("type_id=%d", v.SegmentationTypeID)
		p("segment_num=%d", v.SegmentNum)
		p("segments_expected=%d", v.SegmentsExpected)
		p("sub_segment_num=%s", s32(v.SubSegmentNum))
		p("sub_segments_expected=%s", s32(v.SubSegmentsExpected))
	default:
		p("descriptor %T", d)
	}
	return out
}

// Cmp reports the first difference between the library's section and the
// reference's.
func Cmp(got *scte35.SpliceInfoSection, want *ref.Section) error {
	if d := ref.Diff(Lines(got), want.APILines()); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}

// Join is Lines as one string.
func Join(sis *scte35.SpliceInfoSection) string { return strings.Join(Lines(sis), "\n") }
