// Package checks holds the properties.
package checks

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"sort"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"

	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// decode decodes a private copy of b.
func decode(b []byte) (*scte35.SpliceInfoSection, error) {
	sis := &scte35.SpliceInfoSection{}
	err := sis.Decode(append([]byte{}, b...))
	return sis, err
}

// errClass maps a decode error to the reference's classes.
func errClass(err error) string {
	switch {
	case err == nil:
		return ref.OK
	case errors.Is(err, scte35.ErrBufferOverflow):
		return ref.Overflow
	case errors.Is(err, scte35.ErrBufferUnderflow):
		return ref.Underflow
	case errors.Is(err, scte35.ErrCRC32Invalid):
		return ref.BadCRC
	}
	return "other: " + err.Error()
}

// secCase is a case that is a section.
type secCase struct {
	S *ref.Section `json:"s"`
}

func genSection(c gen.Cfg) func(*rapid.T) secCase {
	return func(t *rapid.T) secCase { return secCase{gen.Section(t, c)} }
}

// classify labels a section.
func classify(s *ref.Section, o *core.Obs) {
	o.Label(fmt.Sprintf("command %#02x", s.Cmd.Type))
	switch s.Cmd.Type {
	case ref.CmdInsert:
		i := s.Cmd.Insert
		o.LabelIf(i.Cancel, "insert cancel")
		o.LabelIf(!i.Cancel && !i.Program, "insert component mode")
		o.LabelIf(!i.Cancel && i.Immediate, "insert immediate")
		o.LabelIf(i.Break != nil, "insert break duration")
		o.LabelIf(len(i.Comps) > 100, "insert over 100 components")
	case ref.CmdSchedule:
		o.LabelIf(len(s.Cmd.Events) > 20, "schedule over 20 events")
		for _, e := range s.Cmd.Events {
			o.LabelIf(e.Cancel, "event cancel")
			o.LabelIf(!e.Cancel && !e.Program, "event component mode")
			o.LabelIf(!e.Cancel && e.UTC > 0xFFFFFFFF-315964800, "event time past the 32-bit Unix range")
		}
	}
	o.LabelIf(s.EncAlg != 0, "encryption algorithm set")
	o.LabelIf(len(s.Stuff) > 0, "alignment stuffing")
	o.LabelIf(len(s.Descs) == 0, "no descriptor")
	o.LabelIf(len(s.Descs) > 1, "several descriptors")
	o.LabelIf(len(s.Descs) > 20, "over 20 descriptors")
	for i := range s.Descs {
		d := &s.Descs[i]
		o.Label("descriptor " + d.Kind)
		if d.Kind != ref.Seg {
			continue
		}
		o.LabelIf(d.S.Cancel, "segmentation cancel")
		o.LabelIf(d.S.Restr != nil, "delivery restrictions")
		o.LabelIf(len(d.S.Comps) > 0, "segmentation components")
		o.LabelIf(d.S.Dur != nil, "segmentation duration")
		o.LabelIf(len(d.S.UPIDs) > 1, "MID")
		o.LabelIf(d.S.SubNum != nil, "sub-segments")
		for _, u := range d.S.UPIDs {
			o.Label(fmt.Sprintf("upid type %#02x", min(u.Type, 0x12)))
		}
	}
}

// rich tells whether a section carries more than a bare command.
func rich(s *ref.Section) bool {
	return len(s.Descs) > 0 || (s.Cmd.Type != ref.CmdNull && s.Cmd.Type != ref.CmdBandwidth)
}

// canonicalUPIDs tells whether every UPID of s survives re-encoding by its
// type's own rules.
func canonicalUPIDs(s *ref.Section) bool {
	for i := range s.Descs {
		d := &s.Descs[i]
		if d.Kind != ref.Seg || d.S.Cancel {
			continue
		}
		for j := range d.S.UPIDs {
			if !d.S.UPIDs[j].Canonical() {
				return false
			}
		}
		if len(d.S.UPIDs) == 1 && (len(d.S.UPIDs[0].Raw) == 0 || d.S.UPIDs[0].Type == 0x0D) {
			return false
		}
	}
	return true
}

// sameBytes compares encodings; for an encrypted section the E_CRC_32 value
// and the CRC_32 over it are left out, the latter being checked for itself.
func sameBytes(got, want []byte, encrypted bool) error {
	if len(got) != len(want) {
		return fmt.Errorf("length %d, want %d\n got %x\nwant %x", len(got), len(want), got, want)
	}
	n := len(got)
	if encrypted {
		n -= 8
		if n < 0 {
			return fmt.Errorf("too short: %x", got)
		}
		if !bytes.Equal(got, ref.FixCRC(got)) {
			return fmt.Errorf("CRC_32 wrong in %x", got)
		}
	}
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return fmt.Errorf("byte %d is %#02x, want %#02x\n got %x\nwant %x", i, got[i], want[i], got, want)
		}
	}
	return nil
}

// observe calls everything that reads a section and returns what each said.
func observe(sis *scte35.SpliceInfoSection) map[string]string {
	out := map[string]string{}
	for _, n := range observers {
		out[n.name] = n.f(sis)
	}
	return out
}

type observer struct {
	name string
	f    func(*scte35.SpliceInfoSection) string
}

func res(b []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

var observers = []observer{
	{"Encode", func(s *scte35.SpliceInfoSection) string { b, err := s.Encode(); return res(b, err) }},
	{"Base64", func(s *scte35.SpliceInfoSection) string { return s.Base64() }},
	{"Hex", func(s *scte35.SpliceInfoSection) string { return s.Hex() }},
	{"Table", func(s *scte35.SpliceInfoSection) string { return s.Table("", "\t") }},
	{"Table2", func(s *scte35.SpliceInfoSection) string { return s.Table("> ", "  ") }},
	{"JSON", func(s *scte35.SpliceInfoSection) string { b, err := json.Marshal(s); return res(b, err) }},
	{"JSONIndent", func(s *scte35.SpliceInfoSection) string { b, err := json.MarshalIndent(s, "", " "); return res(b, err) }},
	{"XML", func(s *scte35.SpliceInfoSection) string { b, err := xml.Marshal(s); return res(b, err) }},
	{"XMLIndent", func(s *scte35.SpliceInfoSection) string { b, err := xml.MarshalIndent(s, "", " "); return res(b, err) }},
	{"Duration", func(s *scte35.SpliceInfoSection) string { return s.Duration().String() }},
	{"SAPTypeName", func(s *scte35.SpliceInfoSection) string { return s.SAPTypeName() }},
	{"EncryptedPacketFlag", func(s *scte35.SpliceInfoSection) string { return fmt.Sprint(s.EncryptedPacketFlag()) }},
	{"Command", func(s *scte35.SpliceInfoSection) string { return commandFlags(s.SpliceCommand) }},
	{"Descriptors", func(s *scte35.SpliceInfoSection) string {
		out := ""
		for _, d := range s.SpliceDescriptors {
			out += descriptorFlags(d) + "\n"
		}
		return out
	}},
	{"Lines", api.Join},
}

func commandFlags(c scte35.SpliceCommand) string {
	if c == nil {
		return "nil"
	}
	out := fmt.Sprint("type ", c.Type())
	switch v := c.(type) {
	case *scte35.SpliceInsert:
		out += fmt.Sprint(" ", v.DurationFlag(), v.ProgramSpliceFlag(), v.TimeSpecifiedFlag(), v.Program.TimeSpecifiedFlag())
		for i := range v.Components {
			out += fmt.Sprint(" ", v.Components[i].TimeSpecifiedFlag(), v.Components[i].SpliceTime.TimeSpecifiedFlag())
		}
	case *scte35.SpliceSchedule:
		for i := range v.Events {
			out += fmt.Sprint(" ", v.Events[i].DurationFlag(), v.Events[i].ProgramSpliceFlag())
			if v.Events[i].Program != nil {
				out += fmt.Sprint(" ", v.Events[i].Program.UTCSpliceTime.GPSSeconds())
			}
		}
	case *scte35.TimeSignal:
		out += fmt.Sprint(" ", v.SpliceTime.TimeSpecifiedFlag())
	case *scte35.PrivateCommand:
		out += " " + v.IdentifierString()
	}
	return out
}

func descriptorFlags(d scte35.SpliceDescriptor) string {
	if d == nil {
		return "nil"
	}
	out := fmt.Sprint("tag ", d.Tag())
	switch v := d.(type) {
	case *scte35.PrivateDescriptor:
		out += " " + v.IdentifierString()
	case *scte35.SegmentationDescriptor:
		out += fmt.Sprint(" ", v.Name(), v.DeliveryNotRestrictedFlag(), v.ProgramSegmentationFlag(), v.SegmentationDurationFlag(), v.SegmentationUpidLength())
		for i := range v.SegmentationUPIDs {
			out += fmt.Sprintf(" %s %q", v.SegmentationUPIDs[i].Name(), v.SegmentationUPIDs[i].ASCIIValue())
		}
	}
	return out
}

// sameObservations compares two sets of observations.
func sameObservations(got, want map[string]string) error {
	names := make([]string, 0, len(want))
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if got[n] != want[n] {
			return fmt.Errorf("%s differs:\n got %q\nwant %q", n, got[n], want[n])
		}
	}
	return nil
}

func fail(f string, a ...any) error { return fmt.Errorf(f, a...) }

func init() { core.BeforeCase = gen.Forget }
