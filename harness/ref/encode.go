package ref

// EncOpts varies the encoding.
type EncOpts struct {
	Res    func(n int) uint64 // reserved bits; nil: ones
	Legacy bool               // splice_command_length 0xFFF
	ECRC   []byte             // E_CRC_32 value of an encrypted section (4 bytes)
	MID    bool               // a MID around one UPID or none too
}

// Canonical encodes the section canonically.
func (s *Section) Canonical() []byte { return s.Encode(EncOpts{}) }

// TooLong is the panic of Encode for a descriptor that no descriptor_length can
// hold.
const TooLong = tooLong("ref: descriptor too long")

type tooLong string

// Fits tells whether the section has a binary form: a signal whose MID ends
// with half a UPID can describe more than the length fields hold.
func (s *Section) Fits() (ok bool) {
	defer func() { ok = recover() == nil }()
	s.Canonical()
	return
}

// Encode encodes the section.
func (s *Section) Encode(o EncOpts) []byte {
	cmd := s.Cmd.Encode(o)
	var loop []byte
	for i := range s.Descs {
		loop = append(loop, s.Descs[i].Encode(o)...)
	}
	body := &BitWriter{Res: o.Res}
	body.Put(8, uint64(s.PV))
	body.Bool(s.EncAlg != 0)
	body.Put(6, uint64(s.EncAlg))
	body.Put(33, s.PTSAdj)
	body.Put(8, uint64(s.CW))
	body.Put(12, uint64(s.Tier))
	if o.Legacy {
		body.Put(12, 0xFFF)
	} else {
		body.Put(12, uint64(len(cmd)))
	}
	body.Put(8, uint64(s.Cmd.Type))
	body.Bytes(cmd)
	body.Put(16, uint64(len(loop)))
	body.Bytes(loop)
	body.Bytes(s.Stuff)
	if s.EncAlg != 0 {
		e := o.ECRC
		if e == nil {
			e = []byte{0, 0, 0, 0}
		}
		body.Bytes(e)
	}
	b := body.Out()
	w := &BitWriter{}
	w.Put(8, 0xFC)
	w.Put(2, 0)
	w.Put(2, uint64(s.SAP))
	w.Put(12, uint64(len(b)+4))
	w.Bytes(b)
	w.Put(32, uint64(CRC32(w.Out())))
	return w.Out()
}

func (w *BitWriter) spliceTime(p *uint64) {
	if p == nil {
		w.Bool(false)
		w.Reserved(7)
		return
	}
	w.Bool(true)
	w.Reserved(6)
	w.Put(33, *p)
}

func (w *BitWriter) brk(b *Break) {
	if b == nil {
		return
	}
	w.Bool(b.Auto)
	w.Reserved(6)
	w.Put(33, b.Dur)
}

// Encode encodes the command body.
func (c *Cmd) Encode(o EncOpts) []byte {
	w := &BitWriter{Res: o.Res}
	switch c.Type {
	case CmdTime:
		w.spliceTime(c.PTS)
	case CmdInsert:
		i := c.Insert
		w.Put(32, uint64(i.ID))
		w.Bool(i.Cancel)
		w.Reserved(7)
		if i.Cancel {
			break
		}
		w.Bool(i.OON)
		w.Bool(i.Program)
		w.Bool(i.Break != nil)
		w.Bool(i.Immediate)
		w.Reserved(4)
		if i.Program {
			if !i.Immediate {
				w.spliceTime(i.PTS)
			}
		} else {
			w.Put(8, uint64(len(i.Comps)))
			for _, k := range i.Comps {
				w.Put(8, uint64(k.Tag))
				if !i.Immediate {
					w.spliceTime(k.PTS)
				}
			}
		}
		w.brk(i.Break)
		w.Put(16, uint64(i.UPI))
		w.Put(8, uint64(i.Num))
		w.Put(8, uint64(i.Exp))
	case CmdSchedule:
		w.Put(8, uint64(len(c.Events)))
		for _, e := range c.Events {
			w.Put(32, uint64(e.ID))
			w.Bool(e.Cancel)
			w.Bool(!e.Compliance)
			w.Reserved(6)
			if e.Cancel {
				continue
			}
			w.Bool(e.OON)
			w.Bool(e.Program)
			w.Bool(e.Break != nil)
			w.Reserved(5)
			if e.Program {
				w.Put(32, uint64(e.UTC))
			} else {
				w.Put(8, uint64(len(e.Comps)))
				for _, k := range e.Comps {
					w.Put(8, uint64(k.Tag))
					w.Put(32, uint64(k.UTC))
				}
			}
			w.brk(e.Break)
			w.Put(16, uint64(e.UPI))
			w.Put(8, uint64(e.Num))
			w.Put(8, uint64(e.Exp))
		}
	case CmdNull, CmdBandwidth:
	default:
		w.Put(32, uint64(c.PrivID))
		w.Bytes(c.Priv)
	}
	return w.Out()
}

// Encode encodes the descriptor, tag and length included.
func (d *Desc) Encode(o EncOpts) []byte {
	w := &BitWriter{Res: o.Res, MID: o.MID}
	tag, ident := uint64(0), uint64(CUEI)
	switch d.Kind {
	case Avail:
		w.Put(32, ident)
		w.Put(32, uint64(d.AvailID))
	case DTMF:
		tag = 1
		w.Put(32, ident)
		w.Put(8, uint64(d.Preroll))
		w.Put(3, uint64(len(d.Chars)))
		w.Reserved(5)
		w.Bytes(d.Chars)
	case Seg:
		tag = 2
		w.Put(32, ident)
		d.S.encode(w)
	case Time:
		tag = 3
		w.Put(32, ident)
		w.Put(48, d.TAI)
		w.Put(32, uint64(d.NS))
		w.Put(16, uint64(d.Offset))
	case Audio:
		tag = 4
		w.Put(32, ident)
		w.Put(4, uint64(len(d.Chans)))
		w.Reserved(4)
		for _, c := range d.Chans {
			w.Put(8, uint64(c.Tag))
			w.Bytes(c.ISO)
			w.Put(3, uint64(c.Mode))
			w.Put(4, uint64(c.Num))
			w.Bool(c.Full)
		}
	case Private:
		tag = uint64(d.Tag)
		w.Put(32, uint64(d.Ident))
		w.Bytes(d.Bytes)
	default:
		panic("ref: kind " + d.Kind)
	}
	b := w.Out()
	if len(b) > 255 {
		panic(TooLong)
	}
	return append([]byte{byte(tag), byte(len(b))}, b...)
}

// UPIDLength is the segmentation_upid_length.
func (s *SegDesc) UPIDLength() int {
	switch len(s.UPIDs) {
	case 0:
		return 0
	case 1:
		return len(s.UPIDs[0].Raw)
	}
	n := 0
	for _, u := range s.UPIDs {
		n += 2 + len(u.Raw)
	}
	return n
}

func (s *SegDesc) encode(w *BitWriter) {
	w.Put(32, uint64(s.ID))
	w.Bool(s.Cancel)
	w.Bool(!s.Compliance)
	w.Reserved(6)
	if s.Cancel {
		return
	}
	w.Bool(len(s.Comps) == 0)
	w.Bool(s.Dur != nil)
	w.Bool(s.Restr == nil)
	if s.Restr == nil {
		w.Reserved(5)
	} else {
		w.Bool(s.Restr.Web)
		w.Bool(s.Restr.Regional)
		w.Bool(s.Restr.Archive)
		w.Put(2, uint64(s.Restr.Device))
	}
	if len(s.Comps) > 0 {
		w.Put(8, uint64(len(s.Comps)))
		for _, c := range s.Comps {
			w.Put(8, uint64(c.Tag))
			w.Reserved(7)
			w.Put(33, c.Off)
		}
	}
	if s.Dur != nil {
		w.Put(40, *s.Dur)
	}
	switch {
	case len(s.UPIDs) == 0 && !w.MID:
		w.Put(16, 0)
	case len(s.UPIDs) == 1 && !w.MID:
		w.Put(8, uint64(s.UPIDs[0].Type))
		w.Put(8, uint64(len(s.UPIDs[0].Raw)))
		w.Bytes(s.UPIDs[0].Raw)
	default:
		w.Put(8, 0x0D)
		n := 0
		for _, u := range s.UPIDs {
			n += 2 + len(u.Raw)
		}
		w.Put(8, uint64(n))
		for _, u := range s.UPIDs {
			w.Put(8, uint64(u.Type))
			w.Put(8, uint64(len(u.Raw)))
			w.Bytes(u.Raw)
		}
	}
	w.Put(8, uint64(s.Type))
	w.Put(8, uint64(s.Num))
	w.Put(8, uint64(s.Exp))
	if s.SubNum != nil {
		w.Put(8, uint64(*s.SubNum))
	}
	if s.SubExp != nil {
		w.Put(8, uint64(*s.SubExp))
	}
}

// Len is the length of the canonical encoding of the command.
func (c *Cmd) Len() int { return len(c.Encode(EncOpts{})) }
