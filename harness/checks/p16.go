package checks

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// editOp is one edit; what it needs it takes from the donor section.
type editOp struct {
	K string       `json:"k"`
	A int          `json:"a,omitempty"`
	B int          `json:"b,omitempty"`
	S *ref.Section `json:"s"`
}

type editCase struct {
	S       *ref.Section `json:"s"`
	Decoded bool         `json:"decoded"`
	Ops     []editOp     `json:"ops"`
}

var anyEdits = []string{"sap", "pv", "enc", "ptsadj", "cw", "tier", "preroll", "cmd", "copy",
	"load.own", "load.own", "load.bytes", "load.json", "load.xml", "load.ownjson", "load.ownxml",
	"d.add", "d.add", "d.ins", "d.del", "d.swap", "d.rep", "d.clear", "d.edit", "d.edit"}

var cmdEdits = map[uint32][]string{
	ref.CmdInsert: {"ins.cancel", "ins.id", "ins.oon", "ins.immediate", "ins.program", "ins.components", "ins.pts", "ins.comp.add",
		"ins.comp.del", "ins.comp.swap", "ins.comp.pts", "ins.break", "ins.nums"},
	ref.CmdSchedule: {"ev.add", "ev.add", "ev.del", "ev.swap", "ev.cancel", "ev.compliance", "ev.program", "ev.components", "ev.comp.add", "ev.comp.del", "ev.utc",
		"ev.break", "ev.nums"},
	ref.CmdTime:      {"ts.pts"},
	ref.CmdPrivate:   {"priv.id", "priv.set", "priv.append", "priv.cut", "priv.poke"},
	ref.CmdNull:      {"cmd"},
	ref.CmdBandwidth: {"cmd"},
}

var segEdits = []string{"s.cancel", "s.id", "s.compliance", "s.restr", "s.restr.flip", "s.dur", "s.comp.add", "s.comp.del", "s.comp.swap",
	"s.upid.add", "s.upid.add", "s.upid.del", "s.upid.rep", "s.upid.swap", "s.upid.clear", "s.type", "s.nums", "s.sub"}

var editCfg = gen.Cfg{Doc: true, Table: true, NoBulk: true, Encrypt: true, PreRoll: true}

func editSection(t *rapid.T, c gen.Cfg) *ref.Section {
	s := gen.Section(t, c)
	oneLine(t, s)
	return s
}

func genEdits(t *rapid.T) editCase {
	c := editCase{Decoded: gen.P(t, 50)}
	cfg := editCfg
	cfg.NoStuff = !c.Decoded
	c.S = editSection(t, cfg)
	typ := c.S.Cmd.Type
	for n := gen.N(t, 1, 8); n > 0; n-- {
		op := editOp{A: gen.N(t, 0, 7), B: gen.N(t, 0, 7)}
		cfg := gen.Cfg{Doc: true, Table: true, NoBulk: true, Encrypt: gen.P(t, 20), PreRoll: true}
		pick := func(l []string) string { return l[gen.N(t, 0, len(l)-1)] }
		switch gen.N(t, 0, 9) {
		case 0, 1, 2:
			op.K = pick(anyEdits)
		case 3, 4, 5, 6:
			op.K = pick(cmdEdits[typ])
			if op.K != "cmd" {
				cfg.Cmds = []uint32{typ}
			}
		default:
			op.K = pick(segEdits)
			cfg.Kinds = []string{ref.Seg}
		}
		for try := 0; try < 2; try++ {
			op.S = editSection(t, cfg)
			if !strings.HasPrefix(op.K, "s.") && !strings.HasPrefix(op.K, "d.") || len(op.S.Descs) > 0 {
				break
			}
		}
		switch op.K {
		case "cmd", "load.bytes", "load.json", "load.xml":
			typ = op.S.Cmd.Type
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func clone(s *ref.Section) *ref.Section {
	b, err := json.Marshal(s)
	if err != nil {
		panic(&core.HarnessError{Msg: err.Error()})
	}
	out := &ref.Section{}
	if err := json.Unmarshal(b, out); err != nil {
		panic(&core.HarnessError{Msg: err.Error()})
	}
	return out
}

// wire is what is left of a section in binary.
func wire(m *ref.Section) *ref.Section {
	r := ref.Decode(m.Canonical())
	if r.Err != ref.OK || r.Sec == nil {
		panic(&core.HarnessError{Msg: fmt.Sprintf("the model does not read its own encoding: %v", r.Err)})
	}
	w := clone(r.Sec)
	w.PreRoll = m.PreRoll
	return w
}

// fits tells whether a section can be encoded.
func fits(m *ref.Section) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false // a descriptor is too long
		}
	}()
	if i := m.Cmd.Insert; i != nil && len(i.Comps) > 255 || len(m.Cmd.Events) > 255 {
		return false
	}
	for _, e := range m.Cmd.Events {
		if len(e.Comps) > 255 {
			return false
		}
	}
	for i := range m.Descs {
		if s := m.Descs[i].S; s != nil && (s.UPIDLength() > 255 || len(s.Comps) > 255) {
			return false
		}
	}
	return len(m.Canonical()) <= 4096 && canonicalUPIDs(m)
}

func j(v any) string { b, _ := json.Marshal(v); return string(b) }

// leftovers tells whether the model holds values its encoding leaves off.
func leftovers(m *ref.Section) bool {
	a, b := clone(m), wire(m)
	for _, s := range []*ref.Section{a, b} {
		if len(s.Descs) == 0 {
			s.Descs = nil
		}
	}
	return j(a) != j(b)
}

// edit applies an edit to the model and, unless it is nil, to the section.
// It reports whether the edit applies.
func edit(m *ref.Section, l *scte35.SpliceInfoSection, op *editOp) bool {
	d := op.S
	switch op.K {
	case "sap", "pv", "enc", "ptsadj", "cw", "tier", "preroll":
		if l != nil {
			switch op.K {
			case "sap":
				l.SAPType = d.SAP
			case "pv":
				l.ProtocolVersion = d.PV
			case "enc":
				l.EncryptedPacket.EncryptionAlgorithm = d.EncAlg
			case "ptsadj":
				l.PTSAdjustment = d.PTSAdj
			case "cw":
				l.EncryptedPacket.CWIndex = d.CW
			case "tier":
				l.Tier = d.Tier
			case "preroll":
				l.PreRollMilliSeconds = d.PreRoll
			}
		}
		switch op.K {
		case "sap":
			m.SAP = d.SAP
		case "pv":
			m.PV = d.PV
		case "enc":
			m.EncAlg = d.EncAlg
		case "ptsadj":
			m.PTSAdj = d.PTSAdj
		case "cw":
			m.CW = d.CW
		case "tier":
			m.Tier = d.Tier
		case "preroll":
			m.PreRoll = d.PreRoll
		}
		return true
	case "cmd":
		m.Cmd = clone(d).Cmd
		if l != nil {
			l.SpliceCommand = api.Command(&d.Cmd)
		}
		return true
	case "ts.pts":
		if m.Cmd.Type != ref.CmdTime {
			return false
		}
		if l != nil {
			setPTS(&l.SpliceCommand.(*scte35.TimeSignal).SpliceTime, d.Cmd.PTS, op.A)
		}
		m.Cmd.PTS = d.Cmd.PTS
		return true
	}
	switch kind, _, _ := strings.Cut(op.K, "."); kind {
	case "priv":
		return editPrivate(m, l, op)
	case "ins":
		return editInsert(m, l, op)
	case "ev":
		return editSchedule(m, l, op)
	case "d":
		return editDescs(m, l, op)
	case "s":
		return editSeg(m, l, op)
	}
	panic(&core.HarnessError{Msg: "edit " + op.K})
}

// setPTS sets a time, some times through the pointer that is there.
func setPTS(st *scte35.SpliceTime, p *uint64, how int) {
	if p != nil && st.PTSTime != nil && how%2 == 0 {
		*st.PTSTime = *p
		return
	}
	st.PTSTime = nil
	if p != nil {
		v := *p
		st.PTSTime = &v
	}
}

func editPrivate(m *ref.Section, l *scte35.SpliceInfoSection, op *editOp) bool {
	c := &m.Cmd
	if c.Type != ref.CmdPrivate || op.S.Cmd.Type != ref.CmdPrivate {
		return false
	}
	var v *scte35.PrivateCommand
	if l != nil {
		v = l.SpliceCommand.(*scte35.PrivateCommand)
	}
	d := &op.S.Cmd
	switch op.K {
	case "priv.id":
		c.PrivID = d.PrivID
		if v != nil {
			v.Identifier = d.PrivID
		}
	case "priv.set":
		c.Priv = append(ref.Hex{}, d.Priv...)
		if v != nil {
			v.PrivateBytes = append(scte35.Bytes{}, d.Priv...)
		}
	case "priv.append":
		c.Priv = append(append(ref.Hex{}, c.Priv...), d.Priv...)
		if v != nil {
			v.PrivateBytes = append(v.PrivateBytes, d.Priv...)
		}
	case "priv.cut":
		n := op.A * len(c.Priv) / 8
		c.Priv = c.Priv[:n]
		if v != nil {
			v.PrivateBytes = v.PrivateBytes[:n]
		}
	case "priv.poke":
		if len(c.Priv) == 0 {
			return false
		}
		n := op.A * len(c.Priv) / 8
		c.Priv[n] ^= byte(1 + op.B)
		if v != nil {
			v.PrivateBytes[n] ^= byte(1 + op.B)
		}
	}
	return true
}

// editBreak sets, clears or changes a break duration; what it does is the
// same for model and section as they agree on whether there is one.
func editBreak(mb **ref.Break, lb **scte35.BreakDuration, d *ref.Break, how int) {
	switch {
	case d == nil:
		*mb = nil
		if lb != nil {
			*lb = nil
		}
	case *mb != nil && how%2 == 0:
		(*mb).Auto, (*mb).Dur = d.Auto, d.Dur
		if lb != nil {
			(*lb).AutoReturn, (*lb).Duration = d.Auto, d.Dur
		}
	default:
		*mb = &ref.Break{Auto: d.Auto, Dur: d.Dur}
		if lb != nil {
			*lb = &scte35.BreakDuration{AutoReturn: d.Auto, Duration: d.Dur}
		}
	}
}

func editInsert(m *ref.Section, l *scte35.SpliceInfoSection, op *editOp) bool {
	i, d := m.Cmd.Insert, op.S.Cmd.Insert
	if m.Cmd.Type != ref.CmdInsert || op.S.Cmd.Type != ref.CmdInsert {
		return false
	}
	v := &scte35.SpliceInsert{} // the dry run works on a stand-in
	if l != nil {
		v = l.SpliceCommand.(*scte35.SpliceInsert)
	} else {
		s := api.Section(m)
		v = s.SpliceCommand.(*scte35.SpliceInsert)
		if i.Cancel { // api leaves leftovers out
			w := *i
			w.Cancel = false
			v = api.Command(&ref.Cmd{Type: ref.CmdInsert, Insert: &w}).(*scte35.SpliceInsert)
		}
		for _, k := range i.Comps {
			if i.Program {
				v.Components = append(v.Components, libComp(k))
			}
		}
	}
	switch op.K {
	case "ins.cancel":
		i.Cancel = !i.Cancel
		v.SpliceEventCancelIndicator = i.Cancel
		if !i.Cancel && !i.Program && v.Program != nil {
			return false
		}
	case "ins.id":
		i.ID, v.SpliceEventID = d.ID, d.ID
	case "ins.oon":
		i.OON = !i.OON
		v.OutOfNetworkIndicator = i.OON
	case "ins.immediate":
		i.Immediate = !i.Immediate
		v.SpliceImmediateFlag = i.Immediate
	case "ins.program":
		i.Program, i.PTS = true, d.PTS
		v.Program = &scte35.SpliceInsertProgram{}
		setPTS(&v.Program.SpliceTime, d.PTS, 1)
		if op.A%2 == 0 {
			i.Comps, v.Components = nil, nil
		}
	case "ins.components":
		i.Program, i.PTS = false, nil
		v.Program = nil
		if op.A%2 == 0 {
			i.Comps, v.Components = nil, nil
			for _, k := range d.Comps {
				i.Comps = append(i.Comps, k)
				v.Components = append(v.Components, libComp(k))
			}
		}
	case "ins.pts":
		if !i.Program {
			return false
		}
		i.PTS = d.PTS
		setPTS(&v.Program.SpliceTime, d.PTS, op.A)
	case "ins.comp.add":
		k := ref.Comp{Tag: d.Num, PTS: d.PTS}
		at := op.A % (len(i.Comps) + 1)
		i.Comps = append(i.Comps[:at:at], append([]ref.Comp{k}, i.Comps[at:]...)...)
		v.Components = append(v.Components[:at:at], append([]scte35.SpliceInsertComponent{libComp(k)}, v.Components[at:]...)...)
	case "ins.comp.del":
		if len(i.Comps) == 0 {
			return false
		}
		at := op.A % len(i.Comps)
		i.Comps = append(i.Comps[:at], i.Comps[at+1:]...)
		v.Components = append(v.Components[:at], v.Components[at+1:]...)
	case "ins.comp.swap":
		if len(i.Comps) < 2 {
			return false
		}
		a, b := op.A%len(i.Comps), op.B%len(i.Comps)
		i.Comps[a], i.Comps[b] = i.Comps[b], i.Comps[a]
		v.Components[a], v.Components[b] = v.Components[b], v.Components[a]
	case "ins.comp.pts":
		if len(i.Comps) == 0 {
			return false
		}
		at := op.A % len(i.Comps)
		i.Comps[at].PTS, i.Comps[at].Tag = d.PTS, d.Exp
		c := &v.Components[at]
		c.Tag = d.Exp
		switch {
		case d.PTS == nil && op.B%2 == 0:
			c.SpliceTime = nil
		case c.SpliceTime != nil && op.B%4 < 2:
			setPTS(c.SpliceTime, d.PTS, 0)
		default:
			c.SpliceTime = &scte35.SpliceTime{}
			setPTS(c.SpliceTime, d.PTS, 1)
		}
	case "ins.break":
		if l == nil {
			editBreak(&i.Break, nil, d.Break, op.A)
		} else {
			editBreak(&i.Break, &v.BreakDuration, d.Break, op.A)
		}
	case "ins.nums":
		i.UPI, i.Num, i.Exp = d.UPI, d.Num, d.Exp
		v.UniqueProgramID, v.AvailNum, v.AvailsExpected = d.UPI, d.Num, d.Exp
	}
	return true
}

func libComp(k ref.Comp) scte35.SpliceInsertComponent {
	i := &ref.Insert{Comps: []ref.Comp{k}}
	return api.Command(&ref.Cmd{Type: ref.CmdInsert, Insert: i}).(*scte35.SpliceInsert).Components[0]
}

// libEvent makes the library's event, leftovers included.
func libEvent(e ref.Event) scte35.Event {
	f := e
	f.Cancel = false
	o := api.Command(&ref.Cmd{Type: ref.CmdSchedule, Events: []ref.Event{f}}).(*scte35.SpliceSchedule).Events[0]
	o.SpliceEventCancelIndicator = e.Cancel
	if e.Program {
		for _, k := range e.Comps {
			o.Components = append(o.Components, libEvComp(k))
		}
	}
	return o
}

func libEvComp(k ref.EvComp) scte35.EventComponent {
	return scte35.EventComponent{Tag: k.Tag, UTCSpliceTime: scte35.NewUTCSpliceTime(k.UTC)}
}

func editSchedule(m *ref.Section, l *scte35.SpliceInfoSection, op *editOp) bool {
	if m.Cmd.Type != ref.CmdSchedule || op.S.Cmd.Type != ref.CmdSchedule {
		return false
	}
	v := &scte35.SpliceSchedule{}
	if l != nil {
		v = l.SpliceCommand.(*scte35.SpliceSchedule)
	} else {
		for _, e := range m.Cmd.Events {
			v.Events = append(v.Events, libEvent(e))
		}
	}
	n := len(m.Cmd.Events)
	d := ref.Event{ID: 7, Compliance: true, Program: true, UTC: 99, Num: 3, Exp: 4}
	if k := len(op.S.Cmd.Events); k > 0 {
		d = op.S.Cmd.Events[op.B%k]
	}
	if op.K == "ev.add" {
		at := op.A % (n + 1)
		m.Cmd.Events = append(m.Cmd.Events[:at:at], append([]ref.Event{d}, m.Cmd.Events[at:]...)...)
		v.Events = append(v.Events[:at:at], append([]scte35.Event{libEvent(d)}, v.Events[at:]...)...)
		return true
	}
	if n == 0 {
		return false
	}
	at := op.A % n
	e, le := &m.Cmd.Events[at], &v.Events[at]
	switch op.K {
	case "ev.del":
		m.Cmd.Events = append(m.Cmd.Events[:at], m.Cmd.Events[at+1:]...)
		v.Events = append(v.Events[:at], v.Events[at+1:]...)
	case "ev.swap":
		b := op.B % n
		m.Cmd.Events[at], m.Cmd.Events[b] = m.Cmd.Events[b], m.Cmd.Events[at]
		v.Events[at], v.Events[b] = v.Events[b], v.Events[at]
	case "ev.cancel":
		e.Cancel = !e.Cancel
		le.SpliceEventCancelIndicator = e.Cancel
	case "ev.compliance":
		e.Compliance = !e.Compliance
		le.EventIDComplianceFlag = e.Compliance
	case "ev.program":
		e.Program, e.UTC = true, d.UTC
		le.Program = &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(d.UTC)}
		if op.B%2 == 0 {
			e.Comps, le.Components = nil, nil
		}
	case "ev.components":
		e.Program, e.UTC = false, 0
		le.Program = nil
		if op.B%2 == 0 {
			e.Comps, le.Components = nil, nil
			for _, k := range d.Comps {
				e.Comps = append(e.Comps, k)
				le.Components = append(le.Components, libEvComp(k))
			}
		}
	case "ev.comp.add":
		k := ref.EvComp{Tag: d.Num, UTC: d.ID}
		e.Comps = append(e.Comps, k)
		le.Components = append(le.Components, libEvComp(k))
	case "ev.comp.del":
		if len(e.Comps) == 0 {
			return false
		}
		b := op.B % len(e.Comps)
		e.Comps = append(e.Comps[:b], e.Comps[b+1:]...)
		le.Components = append(le.Components[:b], le.Components[b+1:]...)
	case "ev.utc":
		switch {
		case e.Program:
			e.UTC = d.ID
			le.Program.UTCSpliceTime = scte35.NewUTCSpliceTime(d.ID)
		case len(e.Comps) > 0:
			b := op.B % len(e.Comps)
			e.Comps[b].UTC = d.ID
			le.Components[b].UTCSpliceTime = scte35.NewUTCSpliceTime(d.ID)
		default:
			return false
		}
	case "ev.break":
		if l == nil {
			editBreak(&e.Break, nil, d.Break, op.B)
		} else {
			editBreak(&e.Break, &le.BreakDuration, d.Break, op.B)
		}
	case "ev.nums":
		e.ID, e.OON, e.UPI, e.Num, e.Exp = d.ID, d.OON, d.UPI, d.Num, d.Exp
		le.SpliceEventID, le.OutOfNetworkIndicator = d.ID, d.OON
		le.UniqueProgramID, le.AvailNum, le.AvailsExpected = d.UPI, d.Num, d.Exp
	}
	return true
}

func editDescs(m *ref.Section, l *scte35.SpliceInfoSection, op *editOp) bool {
	n := len(m.Descs)
	if op.K == "d.clear" {
		m.Descs = nil
		if l != nil {
			l.SpliceDescriptors = nil
		}
		return true
	}
	var d ref.Desc
	if k := len(op.S.Descs); k > 0 {
		d = clone(op.S).Descs[op.B%k]
	} else if op.K != "d.del" && op.K != "d.swap" {
		return false
	}
	at := 0
	switch {
	case op.K == "d.add":
		at = n
	case op.K == "d.ins":
		at = op.A % (n + 1)
	case n == 0:
		return false
	default:
		at = op.A % n
	}
	switch op.K {
	case "d.add", "d.ins":
		m.Descs = append(m.Descs[:at:at], append([]ref.Desc{d}, m.Descs[at:]...)...)
		if l != nil {
			l.SpliceDescriptors = append(l.SpliceDescriptors[:at:at], append(scte35.SpliceDescriptors{api.Descriptor(&d)}, l.SpliceDescriptors[at:]...)...)
		}
	case "d.del":
		m.Descs = append(m.Descs[:at], m.Descs[at+1:]...)
		if l != nil {
			l.SpliceDescriptors = append(l.SpliceDescriptors[:at], l.SpliceDescriptors[at+1:]...)
		}
	case "d.swap":
		b := op.B % n
		m.Descs[at], m.Descs[b] = m.Descs[b], m.Descs[at]
		if l != nil {
			l.SpliceDescriptors[at], l.SpliceDescriptors[b] = l.SpliceDescriptors[b], l.SpliceDescriptors[at]
		}
	case "d.rep":
		m.Descs[at] = d
		if l != nil {
			l.SpliceDescriptors[at] = api.Descriptor(&d)
		}
	case "d.edit": // overwrite the fields of the object that is there
		if m.Descs[at].Kind != d.Kind {
			return false
		}
		m.Descs[at] = d
		if l == nil {
			break
		}
		from := api.Descriptor(&d)
		switch to := l.SpliceDescriptors[at].(type) {
		case *scte35.AvailDescriptor:
			to.ProviderAvailID = d.AvailID
		case *scte35.DTMFDescriptor:
			to.Preroll, to.DTMFChars = d.Preroll, string(d.Chars)
		case *scte35.TimeDescriptor:
			to.TAISeconds, to.TAINS, to.UTCOffset = d.TAI, d.NS, d.Offset
		case *scte35.AudioDescriptor:
			to.AudioChannels = append(to.AudioChannels[:0], from.(*scte35.AudioDescriptor).AudioChannels...)
		case *scte35.PrivateDescriptor:
			to.PrivateTag, to.Identifier = d.Tag, d.Ident
			to.PrivateBytes = append(to.PrivateBytes[:0], d.Bytes...)
		case *scte35.SegmentationDescriptor:
			f := from.(*scte35.SegmentationDescriptor)
			to.SegmentationEventID, to.SegmentationEventCancelIndicator = f.SegmentationEventID, f.SegmentationEventCancelIndicator
			to.SegmentationEventIDComplianceIndicator = f.SegmentationEventIDComplianceIndicator
			to.DeliveryRestrictions, to.SegmentationDuration = f.DeliveryRestrictions, f.SegmentationDuration
			to.Components = append(to.Components[:0], f.Components...)
			to.SegmentationUPIDs = append(to.SegmentationUPIDs[:0], f.SegmentationUPIDs...)
			to.SegmentationTypeID, to.SegmentNum, to.SegmentsExpected = f.SegmentationTypeID, f.SegmentNum, f.SegmentsExpected
			to.SubSegmentNum, to.SubSegmentsExpected = f.SubSegmentNum, f.SubSegmentsExpected
		}
	}
	return true
}

func editSeg(m *ref.Section, l *scte35.SpliceInfoSection, op *editOp) bool {
	find := func(s *ref.Section, k int) int {
		var l []int
		for i := range s.Descs {
			if s.Descs[i].Kind == ref.Seg {
				l = append(l, i)
			}
		}
		if len(l) == 0 {
			return -1
		}
		return l[k%len(l)]
	}
	at, from := find(m, op.A), find(op.S, op.B)
	if at < 0 {
		return false
	}
	d := &ref.SegDesc{Type: 0x34, Num: 2, Exp: 3, Dur: ref.U64(90000), Restr: &ref.Restr{Device: 1}, UPIDs: []ref.UPID{{Type: 9, Raw: ref.Hex("signal")}},
		SubNum: ref.U32(1), SubExp: ref.U32(2)}
	if from >= 0 && !op.S.Descs[from].S.Cancel {
		d = clone(op.S).Descs[from].S
	}
	s := m.Descs[at].S
	v := &scte35.SegmentationDescriptor{}
	if l != nil {
		v = l.SpliceDescriptors[at].(*scte35.SegmentationDescriptor)
	} else {
		f := *s
		f.Cancel = false
		v = api.Descriptor(&ref.Desc{Kind: ref.Seg, S: &f}).(*scte35.SegmentationDescriptor)
	}
	switch op.K {
	case "s.cancel":
		s.Cancel = !s.Cancel
		v.SegmentationEventCancelIndicator = s.Cancel
	case "s.id":
		s.ID, v.SegmentationEventID = d.ID, d.ID
	case "s.compliance":
		s.Compliance = !s.Compliance
		v.SegmentationEventIDComplianceIndicator = s.Compliance
	case "s.restr":
		s.Restr, v.DeliveryRestrictions = nil, nil
		if r := d.Restr; r != nil {
			c := *r
			s.Restr = &c
			v.DeliveryRestrictions = &scte35.DeliveryRestrictions{ArchiveAllowedFlag: c.Archive, WebDeliveryAllowedFlag: c.Web,
				NoRegionalBlackoutFlag: c.Regional, DeviceRestrictions: c.Device}
		}
	case "s.restr.flip":
		if s.Restr == nil {
			return false
		}
		switch op.B % 4 {
		case 0:
			s.Restr.Web = !s.Restr.Web
			v.DeliveryRestrictions.WebDeliveryAllowedFlag = s.Restr.Web
		case 1:
			s.Restr.Regional = !s.Restr.Regional
			v.DeliveryRestrictions.NoRegionalBlackoutFlag = s.Restr.Regional
		case 2:
			s.Restr.Archive = !s.Restr.Archive
			v.DeliveryRestrictions.ArchiveAllowedFlag = s.Restr.Archive
		case 3:
			s.Restr.Device = (s.Restr.Device + 1) % 4
			v.DeliveryRestrictions.DeviceRestrictions = s.Restr.Device
		}
	case "s.dur":
		switch {
		case d.Dur == nil:
			s.Dur, v.SegmentationDuration = nil, nil
		case s.Dur != nil && op.B%2 == 0:
			*s.Dur = *d.Dur
			*v.SegmentationDuration = *d.Dur
		default:
			s.Dur = ref.U64(*d.Dur)
			v.SegmentationDuration = ref.U64(*d.Dur)
		}
	case "s.comp.add":
		k := ref.SegComp{Tag: d.Num, Off: uint64(d.ID)*2 + 1}
		i := op.B % (len(s.Comps) + 1)
		s.Comps = append(s.Comps[:i:i], append([]ref.SegComp{k}, s.Comps[i:]...)...)
		v.Components = append(v.Components[:i:i], append([]scte35.SegmentationDescriptorComponent{{Tag: k.Tag, PTSOffset: k.Off}}, v.Components[i:]...)...)
	case "s.comp.del":
		if len(s.Comps) == 0 {
			return false
		}
		i := op.B % len(s.Comps)
		s.Comps = append(s.Comps[:i], s.Comps[i+1:]...)
		v.Components = append(v.Components[:i], v.Components[i+1:]...)
	case "s.comp.swap":
		if len(s.Comps) < 2 {
			return false
		}
		i, k := op.A%len(s.Comps), op.B%len(s.Comps)
		s.Comps[i], s.Comps[k] = s.Comps[k], s.Comps[i]
		v.Components[i], v.Components[k] = v.Components[k], v.Components[i]
	case "s.upid.add", "s.upid.rep":
		if len(d.UPIDs) == 0 {
			return false
		}
		u := d.UPIDs[op.A%len(d.UPIDs)]
		if op.K == "s.upid.rep" {
			if len(s.UPIDs) == 0 {
				return false
			}
			i := op.B % len(s.UPIDs)
			s.UPIDs[i], v.SegmentationUPIDs[i] = u, api.UPID(&u)
			break
		}
		i := op.B % (len(s.UPIDs) + 1)
		s.UPIDs = append(s.UPIDs[:i:i], append([]ref.UPID{u}, s.UPIDs[i:]...)...)
		v.SegmentationUPIDs = append(v.SegmentationUPIDs[:i:i], append([]scte35.SegmentationUPID{api.UPID(&u)}, v.SegmentationUPIDs[i:]...)...)
	case "s.upid.del":
		if len(s.UPIDs) == 0 {
			return false
		}
		i := op.B % len(s.UPIDs)
		s.UPIDs = append(s.UPIDs[:i], s.UPIDs[i+1:]...)
		v.SegmentationUPIDs = append(v.SegmentationUPIDs[:i], v.SegmentationUPIDs[i+1:]...)
	case "s.upid.swap":
		if len(s.UPIDs) < 2 {
			return false
		}
		i, k := op.A%len(s.UPIDs), op.B%len(s.UPIDs)
		s.UPIDs[i], s.UPIDs[k] = s.UPIDs[k], s.UPIDs[i]
		v.SegmentationUPIDs[i], v.SegmentationUPIDs[k] = v.SegmentationUPIDs[k], v.SegmentationUPIDs[i]
	case "s.upid.clear":
		s.UPIDs, v.SegmentationUPIDs = nil, nil
	case "s.type":
		s.Type, v.SegmentationTypeID = d.Type, d.Type
		if !ref.SubSegTypes[d.Type] {
			s.SubNum, s.SubExp, v.SubSegmentNum, v.SubSegmentsExpected = nil, nil, nil, nil
		}
	case "s.nums":
		s.Num, s.Exp, v.SegmentNum, v.SegmentsExpected = d.Num, d.Exp, d.Num, d.Exp
	case "s.sub":
		if d.SubNum == nil || d.SubExp == nil {
			s.SubNum, s.SubExp, v.SubSegmentNum, v.SubSegmentsExpected = nil, nil, nil, nil
			break
		}
		if !ref.SubSegTypes[s.Type] {
			return false
		}
		if s.SubNum != nil && op.B%2 == 0 {
			*s.SubNum, *s.SubExp, *v.SubSegmentNum, *v.SubSegmentsExpected = *d.SubNum, *d.SubExp, *d.SubNum, *d.SubExp
			break
		}
		s.SubNum, s.SubExp = ref.U32(*d.SubNum), ref.U32(*d.SubExp)
		v.SubSegmentNum, v.SubSegmentsExpected = ref.U32(*d.SubNum), ref.U32(*d.SubExp)
	}
	return true
}

// allForms compares every form of the section with the model.
func allForms(sis *scte35.SpliceInfoSection, m *ref.Section) error {
	want := m.Canonical()
	w := wire(m)
	enc := m.EncAlg != 0
	got, err := sis.Encode()
	if err != nil {
		return fail("encode: %v", err)
	}
	if err := sameBytes(got, want, enc); err != nil {
		return fail("binary: %v", err)
	}
	if b, err := base64.StdEncoding.DecodeString(sis.Base64()); err != nil || sameBytes(b, want, enc) != nil {
		return fail("Base64 is %s, of %x", sis.Base64(), got)
	}
	if b, err := hex.DecodeString(strings.TrimPrefix(sis.Hex(), "0x")); err != nil || sameBytes(b, want, enc) != nil {
		return fail("Hex is %s, of %x", sis.Hex(), got)
	}
	back, err := decode(got)
	if err != nil && !enc {
		return fail("the encoding is not accepted: %v", err)
	}
	if err := api.Cmp(back, w); err != nil {
		return fail("decoded again: %v", err)
	}
	plain := *m
	plain.Stuff = nil
	noStuff := plain.Canonical()
	for _, kind := range []string{"json", "xml"} {
		var doc []byte
		d := &scte35.SpliceInfoSection{}
		if kind == "json" {
			doc, err = json.Marshal(sis)
		} else {
			doc, err = xml.Marshal(sis)
		}
		if err != nil {
			return fail("%s: marshal: %v", kind, err)
		}
		if kind == "json" {
			err = json.Unmarshal(doc, d)
		} else {
			err = xml.Unmarshal(doc, d)
		}
		if err != nil {
			return fail("%s: unmarshal: %v\n%s", kind, err, doc)
		}
		b, err := d.Encode()
		if err != nil {
			return fail("%s: encode: %v", kind, err)
		}
		if err := sameBytes(b, noStuff, enc); err != nil {
			return fail("%s describes something else: %v\n%s", kind, err, doc)
		}
		if d.PreRollMilliSeconds != m.PreRoll {
			return fail("%s: pre-roll %d, want %d", kind, d.PreRollMilliSeconds, m.PreRoll)
		}
	}
	if err := checkTable(sis.Table("", "\t"), "", "\t", w); err != nil {
		return fail("table: %v", err)
	}
	judged := true // durations left in something cancelled are not judged
	if i := m.Cmd.Insert; i != nil && i.Cancel && i.Break != nil {
		judged = false
	}
	for _, d := range m.Descs {
		judged = judged && (d.S == nil || !d.S.Cancel || d.S.Dur == nil)
	}
	if judged {
		if d := wantDuration(w); sis.Duration() != d {
			return fail("duration is %v, want %v", sis.Duration(), d)
		}
	}
	return nil
}

func checkEdits(c editCase, o *core.Obs) error {
	m := clone(c.S)
	sis := api.Section(c.S)
	if c.Decoded {
		var err error
		if sis, err = decode(c.S.Canonical()); err != nil && m.EncAlg == 0 {
			return fail("rejected: %v", err)
		}
		sis.PreRollMilliSeconds = m.PreRoll
	}
	if err := allForms(sis, m); err != nil {
		return fail("before any edit: %v", err)
	}
	done := 0
	for n := range c.Ops {
		op := &c.Ops[n]
		next := clone(m)
		switch op.K {
		case "copy":
			cp := *sis
			sis = &cp
		case "load.own", "load.bytes":
			if op.K == "load.own" {
				next = wire(m)
			} else {
				next = clone(op.S)
			}
			b := next.Canonical()
			to := sis
			if op.B%2 == 1 {
				to = &scte35.SpliceInfoSection{}
			}
			if err := to.Decode(b); err != nil && next.EncAlg == 0 {
				return fail("edit %d, %s: %v", n, op.K, err)
			}
			to.PreRollMilliSeconds = next.PreRoll
			sis = to
		case "load.json", "load.xml", "load.ownjson", "load.ownxml":
			src := sis
			if op.K == "load.json" || op.K == "load.xml" {
				next = clone(op.S)
				src = api.Section(next)
			} else if leftovers(m) {
				continue
			}
			next.Stuff = nil
			var err error
			if strings.HasSuffix(op.K, "json") {
				var doc []byte
				if doc, err = json.Marshal(src); err == nil {
					err = json.Unmarshal(doc, sis)
				}
			} else {
				var doc []byte
				if doc, err = xml.Marshal(src); err == nil {
					err = xml.Unmarshal(doc, sis)
				}
			}
			if err != nil {
				return fail("edit %d, %s: %v", n, op.K, err)
			}
		default:
			try := clone(m)
			if !edit(try, nil, op) || !fits(try) {
				continue
			}
			edit(next, sis, op)
		}
		m = next
		done++
		o.Label("edit " + op.K)
		o.LabelIf(leftovers(m), "leftovers after an edit")
		o.LabelIf(len(m.Stuff) > 0, "stuffing kept over an edit")
		if err := allForms(sis, m); err != nil {
			return fail("after edit %d, %s: %v", n, op.K, err)
		}
	}
	o.Evals(done)
	if done > 1 {
		o.NonTrivial()
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:    "P16",
		Boost: 2,
		Rule: "a section, built or decoded, goes through 1 to 8 drawn edits - header fields, command replaced or changed in place, cancel, immediate, program and component " +
			"mode toggled with the switched-off fields left in, times and durations set, cleared or changed through their pointers, list elements " +
			"added, removed, swapped and changed, signals and documents loaded, the section copied - applied to a reference model as well; after " +
			"every edit all binary, text, table and document forms and the duration are compared with the model; places: one public part after the other, of a section that was looked at, is changed in place, after which no other part may have changed " +
			"and everything must read as in a section changed the same way unseen, and as in a fresh one with the same public fields; " +
			"non-trivial: two or more edits, or a change compared",
		Assumptions: []string{"edits that would exceed a size limit are skipped", "text fits documents and single table lines", "documents do not carry stuffing"},
		Subs: []*core.Sub{
			core.New("edits", 40000, 600000, genEdits, checkEdits),
			core.New("places", 60000, 900000, genLeaf, checkLeaves),
		},
	})
}
