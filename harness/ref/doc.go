package ref

import (
	"encoding/hex"
	"fmt"
	"time"
)

// Attr is an XML attribute of a document.
type Attr struct {
	Name string
	Kind string // "int", "bool", "time", "text"
	Val  string // decimal, "true"/"false", seconds since 1970, text
	// Opt: the attribute may be left out when it has this value ("" if never)
	Opt string
	// Default: the schema's default, "" if none
	Default string
}

// Node is an XML element of a document.
type Node struct {
	Name  string
	Attrs []Attr
	Kids  []*Node
	Text  string
	// OptEmpty: an element that says nothing, which may be left out
	OptEmpty bool
	// NoSpace: its text must not have white space added
	NoSpace bool
	// NS, if set, is the namespace the element is put into instead of SCTE 35's
	NS *string
}

func (n *Node) num(name string, v uint64) *Node {
	n.Attrs = append(n.Attrs, Attr{Name: name, Kind: "int", Val: fmt.Sprint(v)})
	return n
}
func (n *Node) numOpt(name string, v uint64) *Node {
	n.Attrs = append(n.Attrs, Attr{Name: name, Kind: "int", Val: fmt.Sprint(v), Opt: "0"})
	return n
}
func (n *Node) bit(name string, v bool) *Node {
	n.Attrs = append(n.Attrs, Attr{Name: name, Kind: "bool", Val: fmt.Sprint(v)})
	return n
}
func (n *Node) bitOpt(name string, v bool) *Node {
	n.Attrs = append(n.Attrs, Attr{Name: name, Kind: "bool", Val: fmt.Sprint(v), Opt: "false"})
	return n
}
func (n *Node) utc(name string, gps uint32) *Node {
	n.Attrs = append(n.Attrs, Attr{Name: name, Kind: "time", Val: fmt.Sprint(int64(gps) + 315964800)})
	return n
}
func (n *Node) str(name, v string) *Node {
	n.Attrs = append(n.Attrs, Attr{Name: name, Kind: "text", Val: v})
	return n
}
func (n *Node) dflt(v string) *Node {
	n.Attrs[len(n.Attrs)-1].Default = v
	return n
}
func (n *Node) add(k *Node) *Node {
	if k != nil {
		n.Kids = append(n.Kids, k)
	}
	return n
}

func xtime(p *uint64) *Node {
	n := &Node{Name: "SpliceTime"}
	if p != nil {
		n.num("ptsTime", *p)
	}
	return n
}

func xbrk(b *Break) *Node {
	if b == nil {
		return nil
	}
	return (&Node{Name: "BreakDuration"}).bit("autoReturn", b.Auto).num("duration", b.Dur)
}

// XML gives the document of the SCTE 35 XML schema that describes the
// section.  With schema, private commands and descriptors and FullSrvcAudio
// are as the schema has them; without, as the library has them.
func (s *Section) XML(schema bool) *Node {
	n := &Node{Name: "SpliceInfoSection"}
	n.num("sapType", uint64(s.SAP)).dflt("3")
	n.numOpt("preRollMilliSeconds", uint64(s.PreRoll)).dflt("0")
	n.numOpt("ptsAdjustment", s.PTSAdj).dflt("0")
	n.numOpt("protocolVersion", uint64(s.PV))
	n.num("tier", uint64(s.Tier))
	n.add((&Node{Name: "EncryptedPacket", OptEmpty: s.EncAlg == 0 && s.CW == 0}).
		num("encryptionAlgorithm", uint64(s.EncAlg)).num("cwIndex", uint64(s.CW)))
	n.add(s.Cmd.XML(schema))
	for i := range s.Descs {
		n.add(s.Descs[i].XML(schema))
	}
	return n
}

// XML is the element of the command.
func (c *Cmd) XML(schema bool) *Node {
	switch c.Type {
	case CmdNull:
		return &Node{Name: "SpliceNull"}
	case CmdBandwidth:
		return &Node{Name: "BandwidthReservation"}
	case CmdTime:
		return (&Node{Name: "TimeSignal"}).add(xtime(c.PTS))
	case CmdPrivate:
		n := (&Node{Name: "PrivateCommand", NoSpace: true}).num("identifier", uint64(c.PrivID))
		n.bytes(c.Priv, schema)
		return n
	case CmdInsert:
		i := c.Insert
		n := &Node{Name: "SpliceInsert"}
		n.numOpt("spliceEventId", uint64(i.ID))
		n.bitOpt("spliceEventCancelIndicator", i.Cancel).dflt("false")
		if i.Cancel {
			return n.zeros("spliceImmediateFlag bool", "outOfNetworkIndicator bool", "uniqueProgramId int", "availNum int", "availsExpected int")
		}
		n.bitOpt("outOfNetworkIndicator", i.OON)
		n.bitOpt("spliceImmediateFlag", i.Immediate)
		n.numOpt("uniqueProgramId", uint64(i.UPI)).numOpt("availNum", uint64(i.Num)).numOpt("availsExpected", uint64(i.Exp))
		if i.Program {
			t := xtime(i.PTS)
			t.OptEmpty = i.PTS == nil
			n.add((&Node{Name: "Program"}).add(t))
		} else {
			for _, k := range i.Comps {
				t := xtime(k.PTS)
				t.OptEmpty = k.PTS == nil
				n.add((&Node{Name: "Component"}).num("componentTag", uint64(k.Tag)).add(t))
			}
		}
		return n.add(xbrk(i.Break))
	case CmdSchedule:
		n := &Node{Name: "SpliceSchedule"}
		for k := range c.Events {
			e := &c.Events[k]
			x := &Node{Name: "Event"}
			x.numOpt("spliceEventId", uint64(e.ID))
			x.bitOpt("spliceEventCancelIndicator", e.Cancel).dflt("false")
			x.bitOpt("eventIdComplianceFlag", e.Compliance)
			n.add(x)
			if e.Cancel {
				x.zeros("outOfNetworkIndicator bool", "uniqueProgramId int", "availNum int", "availsExpected int")
				continue
			}
			x.bitOpt("outOfNetworkIndicator", e.OON)
			x.numOpt("uniqueProgramId", uint64(e.UPI)).numOpt("availNum", uint64(e.Num)).numOpt("availsExpected", uint64(e.Exp))
			if e.Program {
				x.add((&Node{Name: "Program"}).utc("utcSpliceTime", e.UTC))
			} else {
				for _, k := range e.Comps {
					x.add((&Node{Name: "Component"}).num("componentTag", uint64(k.Tag)).utc("utcSpliceTime", k.UTC))
				}
			}
			x.add(xbrk(e.Break))
		}
		return n
	}
	panic("ref: command type")
}

// zeros are attributes a cancelled event may have, all zero.
func (n *Node) zeros(list ...string) *Node {
	for _, l := range list {
		var name, kind string
		fmt.Sscan(l, &name, &kind)
		if kind == "bool" {
			n.bitOpt(name, false)
		} else {
			n.numOpt(name, 0)
		}
	}
	return n
}

func (n *Node) bytes(b []byte, schema bool) {
	if schema {
		n.NoSpace = false
		n.add(&Node{Name: "PrivateBytes", Text: hex.EncodeToString(b), NoSpace: true})
		return
	}
	n.Text = hex.EncodeToString(b)
}

// XML is the element of the descriptor.
func (d *Desc) XML(schema bool) *Node {
	switch d.Kind {
	case Avail:
		return (&Node{Name: "AvailDescriptor"}).num("providerAvailId", uint64(d.AvailID))
	case DTMF:
		return (&Node{Name: "DTMFDescriptor"}).numOpt("preroll", uint64(d.Preroll)).str("chars", string(d.Chars))
	case Time:
		return (&Node{Name: "TimeDescriptor"}).numOpt("taiSeconds", d.TAI).numOpt("taiNs", uint64(d.NS)).numOpt("utcOffset", uint64(d.Offset))
	case Audio:
		n := &Node{Name: "AudioDescriptor"}
		for _, c := range d.Chans {
			k := (&Node{Name: "AudioChannel"}).numOpt("componentTag", uint64(c.Tag)).str("ISOCode", string(c.ISO)).
				num("BitStreamMode", uint64(c.Mode)).num("NumChannels", uint64(c.Num))
			if schema {
				v := uint64(0)
				if c.Full {
					v = 1
				}
				k.num("FullSrvcAudio", v)
			} else {
				k.bit("FullSrvcAudio", c.Full)
			}
			n.add(k)
		}
		return n
	case Private:
		n := &Node{Name: "PrivateDescriptor", NoSpace: true}
		if schema {
			n.num("descriptorTag", uint64(d.Tag))
		} else {
			n.num("tag", uint64(d.Tag))
		}
		n.num("identifier", uint64(d.Ident))
		n.bytes(d.Bytes, schema)
		return n
	case Seg:
		s := d.S
		n := &Node{Name: "SegmentationDescriptor"}
		n.numOpt("segmentationEventId", uint64(s.ID))
		n.bitOpt("segmentationEventCancelIndicator", s.Cancel).dflt("false")
		n.bitOpt("segmentationEventIdComplianceIndicator", s.Compliance)
		if s.Cancel {
			return n.zeros("segmentationTypeId int", "segmentNum int", "segmentsExpected int")
		}
		if s.Dur != nil {
			n.num("segmentationDuration", *s.Dur)
		}
		n.numOpt("segmentationTypeId", uint64(s.Type)).numOpt("segmentNum", uint64(s.Num)).numOpt("segmentsExpected", uint64(s.Exp))
		if s.SubNum != nil {
			n.num("subSegmentNum", uint64(*s.SubNum))
		}
		if s.SubExp != nil {
			n.num("subSegmentsExpected", uint64(*s.SubExp))
		}
		if r := s.Restr; r != nil {
			n.add((&Node{Name: "DeliveryRestrictions"}).bit("archiveAllowedFlag", r.Archive).bit("webDeliveryAllowedFlag", r.Web).
				bit("noRegionalBlackoutFlag", r.Regional).num("deviceRestrictions", uint64(r.Device)))
		}
		for i := range s.UPIDs {
			v := s.UPIDs[i].API()
			k := (&Node{Name: "SegmentationUpid", Text: v.Value}).num("segmentationUpidType", uint64(v.Type))
			if v.Format != "" {
				k.str("segmentationUpidFormat", v.Format)
			}
			if v.FI != nil {
				k.num("formatIdentifier", uint64(*v.FI))
			}
			n.add(k)
		}
		for _, c := range s.Comps {
			n.add((&Node{Name: "Component"}).num("componentTag", uint64(c.Tag)).num("ptsOffset", c.Off))
		}
		return n
	}
	panic("ref: kind")
}

// ---- JSON

// Obj is a JSON object with its members in order; Must names the members
// that have to be there whatever their value.
type Obj struct {
	Names []string
	Vals  []any // Obj pointers, []any, uint64, bool, string, Instant, nil
	Must  map[string]bool
}

// Instant is a time, in seconds since 1970.
type Instant int64

// Format gives the instant in a zone.
func (i Instant) Format(offsetMinutes int) string {
	t := time.Unix(int64(i), 0).UTC()
	if offsetMinutes != 0 {
		t = t.In(time.FixedZone("", offsetMinutes*60))
	}
	return t.Format(time.RFC3339)
}

func obj() *Obj { return &Obj{Must: map[string]bool{}} }

func (o *Obj) set(name string, v any) *Obj {
	o.Names, o.Vals = append(o.Names, name), append(o.Vals, v)
	return o
}

func (o *Obj) must(name string, v any) *Obj {
	o.Must[name] = true
	return o.set(name, v)
}

// opt64 sets a member whose absence means something.
func (o *Obj) opt64(name string, p *uint64) *Obj {
	if p == nil {
		return o.set(name, nil)
	}
	return o.must(name, *p)
}

func (o *Obj) opt32(name string, p *uint32) *Obj {
	if p == nil {
		return o.set(name, nil)
	}
	return o.must(name, uint64(*p))
}

func jbrk(o *Obj, b *Break) {
	if b == nil {
		o.set("breakDuration", nil)
		return
	}
	o.must("breakDuration", obj().set("autoReturn", b.Auto).set("duration", b.Dur))
}

// JSON gives the document that describes the section.
func (s *Section) JSON() *Obj {
	o := obj()
	o.must("sapType", uint64(s.SAP)).must("tier", uint64(s.Tier))
	o.set("protocolVersion", uint64(s.PV)).set("preRollMilliSeconds", uint64(s.PreRoll)).set("ptsAdjustment", s.PTSAdj)
	o.set("encryptedPacket", obj().set("encryptionAlgorithm", uint64(s.EncAlg)).set("cwIndex", uint64(s.CW)))
	o.must("spliceCommand", s.Cmd.JSON())
	ds := []any{}
	for i := range s.Descs {
		ds = append(ds, s.Descs[i].JSON())
	}
	o.set("spliceDescriptors", ds)
	return o
}

// JSON is the object of the command.
func (c *Cmd) JSON() *Obj {
	o := obj().must("type", uint64(c.Type))
	switch c.Type {
	case CmdTime:
		o.set("spliceTime", obj().opt64("ptsTime", c.PTS))
	case CmdPrivate:
		o.set("identifier", uint64(c.PrivID)).set("privateBytes", hex.EncodeToString(c.Priv))
	case CmdInsert:
		i := c.Insert
		o.set("spliceEventId", uint64(i.ID)).set("spliceEventCancelIndicator", i.Cancel)
		if i.Cancel {
			i = &Insert{}
		}
		o.set("spliceImmediateFlag", i.Immediate).set("outOfNetworkIndicator", i.OON)
		o.set("uniqueProgramId", uint64(i.UPI)).set("availNum", uint64(i.Num)).set("availsExpected", uint64(i.Exp))
		jbrk(o, i.Break)
		if i.Program {
			o.must("program", obj().set("spliceTime", obj().opt64("ptsTime", i.PTS))).set("components", nil)
		} else {
			o.set("program", nil)
			l := []any{}
			for _, k := range i.Comps {
				c := obj().set("componentTag", uint64(k.Tag))
				if k.PTS != nil {
					c.must("spliceTime", obj().opt64("ptsTime", k.PTS))
				} else {
					c.set("spliceTime", nil)
				}
				l = append(l, c)
			}
			o.set("components", l)
		}
	case CmdSchedule:
		l := []any{}
		for k := range c.Events {
			e := c.Events[k]
			x := obj().set("spliceEventId", uint64(e.ID)).set("spliceEventCancelIndicator", e.Cancel).set("eventIdComplianceFlag", e.Compliance)
			if e.Cancel {
				e = Event{}
			}
			x.set("outOfNetworkIndicator", e.OON)
			x.set("uniqueProgramId", uint64(e.UPI)).set("availNum", uint64(e.Num)).set("availsExpected", uint64(e.Exp))
			jbrk(x, e.Break)
			if e.Program {
				x.must("program", obj().must("utcSpliceTime", Instant(int64(e.UTC)+315964800))).set("components", nil)
			} else {
				x.set("program", nil)
				cs := []any{}
				for _, k := range e.Comps {
					cs = append(cs, obj().set("componentTag", uint64(k.Tag)).must("utcSpliceTime", Instant(int64(k.UTC)+315964800)))
				}
				x.set("components", cs)
			}
			l = append(l, x)
		}
		o.set("events", l)
	}
	return o
}

// JSON is the object of the descriptor.
func (d *Desc) JSON() *Obj {
	o := obj()
	switch d.Kind {
	case Avail:
		o.must("type", uint64(0)).set("providerAvailId", uint64(d.AvailID))
	case DTMF:
		o.must("type", uint64(1)).set("preroll", uint64(d.Preroll)).set("chars", string(d.Chars))
	case Time:
		o.must("type", uint64(3)).set("taiSeconds", d.TAI).set("taiNs", uint64(d.NS)).set("utcOffset", uint64(d.Offset))
	case Audio:
		o.must("type", uint64(4))
		l := []any{}
		for _, c := range d.Chans {
			l = append(l, obj().set("componentTag", uint64(c.Tag)).set("isoCode", string(c.ISO)).set("bitStreamMode", uint64(c.Mode)).
				set("numChannels", uint64(c.Num)).set("fullSrvcAudio", c.Full))
		}
		o.set("audioChannels", l)
	case Private:
		o.must("type", uint64(d.Tag)).must("identifier", uint64(d.Ident)).set("tag", uint64(d.Tag)).set("privateBytes", hex.EncodeToString(d.Bytes))
	case Seg:
		s := d.S
		o.must("type", uint64(2)).set("segmentationEventId", uint64(s.ID)).set("segmentationEventCancelIndicator", s.Cancel)
		o.set("segmentationEventIdComplianceIndicator", s.Compliance)
		if s.Cancel {
			s = &SegDesc{}
		}
		o.set("segmentationTypeId", uint64(s.Type)).set("segmentNum", uint64(s.Num)).set("segmentsExpected", uint64(s.Exp))
		o.opt64("segmentationDuration", s.Dur).opt32("subSegmentNum", s.SubNum).opt32("subSegmentsExpected", s.SubExp)
		if r := s.Restr; r != nil {
			o.must("deliveryRestrictions", obj().set("archiveAllowedFlag", r.Archive).set("webDeliveryAllowedFlag", r.Web).
				set("noRegionalBlackoutFlag", r.Regional).set("deviceRestrictions", uint64(r.Device)))
		} else {
			o.set("deliveryRestrictions", nil)
		}
		us := []any{}
		for i := range s.UPIDs {
			v := s.UPIDs[i].API()
			us = append(us, obj().must("segmentationUpidType", uint64(v.Type)).set("segmentationUpidFormat", v.Format).
				opt32("formatIdentifier", v.FI).set("value", v.Value))
		}
		o.set("segmentationUpids", us)
		cs := []any{}
		for _, c := range s.Comps {
			cs = append(cs, obj().set("componentTag", uint64(c.Tag)).set("ptsOffset", c.Off))
		}
		o.set("components", cs)
	}
	return o
}
