package ref

// Error classes of a decode.
const (
	OK        = ""
	Overflow  = "overflow"  // a structure needs more bytes than it was given
	Underflow = "underflow" // a structure leaves bytes of its own unread
	BadCRC    = "crc"
)

// Result is what the reference decoder makes of some bytes.
type Result struct {
	Sec    *Section
	Err    string
	CmdErr bool // the command itself is at fault
	// DescErr[i] is the error class of descriptor i.
	DescErr []string
	// DescOver[i]: descriptor i is longer than what is left of the loop, so
	// that it overflows whatever else is wrong inside.
	DescOver []bool
	// Loose: the bytes hold something whose meaning the standard does not fix
	// (a TI upid longer than eight bytes, say).
	Loose bool
	// Canonical: re-encoding the result gives the very same bytes.
	Encrypted bool
	ECRC      []byte
	Legacy    bool
}

func class(r *BitReader) string {
	if r.Over {
		return Overflow
	}
	if r.pos < len(r.b)*8 {
		return Underflow
	}
	return OK
}

// Decode decodes b independently of the library.
func Decode(b []byte) *Result {
	r := &BitReader{b: b}
	s := &Section{}
	res := &Result{Sec: s}
	r.Get(8)
	r.Get(2)
	s.SAP = r.U32(2)
	r.Get(12)
	s.PV = r.U32(8)
	res.Encrypted = r.Bool()
	s.EncAlg = r.U32(6)
	s.PTSAdj = r.Get(33)
	s.CW = r.U32(8)
	s.Tier = r.U32(12)
	cl := int(r.Get(12))
	s.Cmd.Type = r.U32(8)
	if cl == 0xFFF {
		res.Legacy = true
		rest := r.b[min(r.pos/8, len(r.b)):]
		cr := &BitReader{b: rest}
		s.Cmd.decode(cr)
		if cr.Over {
			res.Err, res.CmdErr = Overflow, true
			return res
		}
		r.pos += cr.pos
	} else {
		body := r.Take(cl)
		cr := &BitReader{b: body}
		s.Cmd.decode(cr)
		if e := class(cr); e != OK {
			res.Err, res.CmdErr = e, true
			return res
		}
	}
	ll := int(r.Get(16))
	lr := &BitReader{b: r.Take(ll)}
	for lr.Left() > 0 {
		d, e, over, loose := decodeDesc(lr)
		s.Descs = append(s.Descs, d)
		res.DescErr = append(res.DescErr, e)
		res.DescOver = append(res.DescOver, over)
		res.Loose = res.Loose || loose
		if e != OK {
			res.Err = e
		}
	}
	if res.Err != OK {
		return res
	}
	tail := 4
	if res.Encrypted {
		tail = 8
	}
	if n := r.Left() - tail; n > 0 {
		s.Stuff = r.Take(n)
	}
	if res.Encrypted {
		res.ECRC = r.Take(4)
	}
	crc := r.U32(32)
	if r.Over {
		res.Err = Overflow
		return res
	}
	if crc != CRC32(b[:len(b)-4]) {
		res.Err = BadCRC
	}
	return res
}

func (r *BitReader) spliceTime() *uint64 {
	if !r.Bool() {
		r.Get(7)
		return nil
	}
	r.Get(6)
	v := r.Get(33)
	return &v
}

func (r *BitReader) brk() *Break {
	b := &Break{}
	b.Auto = r.Bool()
	r.Get(6)
	b.Dur = r.Get(33)
	return b
}

func (c *Cmd) decode(r *BitReader) {
	switch c.Type {
	case CmdNull, CmdBandwidth:
	case CmdTime:
		c.PTS = r.spliceTime()
	case CmdInsert:
		i := &Insert{}
		c.Insert = i
		i.ID = r.U32(32)
		i.Cancel = r.Bool()
		r.Get(7)
		if i.Cancel {
			return
		}
		i.OON = r.Bool()
		i.Program = r.Bool()
		dur := r.Bool()
		i.Immediate = r.Bool()
		r.Get(4)
		if i.Program {
			if !i.Immediate {
				i.PTS = r.spliceTime()
			}
		} else {
			n := int(r.Get(8))
			for k := 0; k < n; k++ {
				cc := Comp{Tag: r.U32(8)}
				if !i.Immediate {
					cc.PTS = r.spliceTime()
				}
				i.Comps = append(i.Comps, cc)
			}
		}
		if dur {
			i.Break = r.brk()
		}
		i.UPI = r.U32(16)
		i.Num = r.U32(8)
		i.Exp = r.U32(8)
	case CmdSchedule:
		n := int(r.Get(8))
		for k := 0; k < n; k++ {
			e := Event{ID: r.U32(32)}
			e.Cancel = r.Bool()
			e.Compliance = !r.Bool()
			r.Get(6)
			if !e.Cancel {
				e.OON = r.Bool()
				e.Program = r.Bool()
				dur := r.Bool()
				r.Get(5)
				if e.Program {
					e.UTC = r.U32(32)
				} else {
					m := int(r.Get(8))
					for j := 0; j < m; j++ {
						e.Comps = append(e.Comps, EvComp{Tag: r.U32(8), UTC: r.U32(32)})
					}
				}
				if dur {
					e.Break = r.brk()
				}
				e.UPI = r.U32(16)
				e.Num = r.U32(8)
				e.Exp = r.U32(8)
			}
			c.Events = append(c.Events, e)
		}
	default:
		c.Type = CmdPrivate // a command nobody knows is kept as a private one
		c.PrivID = r.U32(32)
		c.Priv = r.Take(r.Left())
	}
}

func decodeDesc(lr *BitReader) (d Desc, err string, over, loose bool) {
	peek := *lr
	tag := peek.U32(8)
	n := int(peek.Get(8))
	ident := peek.U32(32)
	over = n+2 > lr.Left()
	body := lr.Take(n + 2)
	r := &BitReader{b: body}
	// identifier bits beyond the declared length still select the kind; such a
	// descriptor overflows whatever its kind
	r.Get(16)
	r.Get(32)
	if ident == CUEI && tag <= 4 {
		switch tag {
		case 0:
			d.Kind = Avail
			d.AvailID = r.U32(32)
		case 1:
			d.Kind = DTMF
			d.Preroll = r.U32(8)
			c := int(r.Get(3))
			r.Get(5)
			d.Chars = r.Take(c)
		case 2:
			d.Kind = Seg
			d.S = &SegDesc{}
			loose = d.S.decode(r)
		case 3:
			d.Kind = Time
			d.TAI = r.Get(48)
			d.NS = r.U32(32)
			d.Offset = r.U32(16)
		case 4:
			d.Kind = Audio
			c := int(r.Get(4))
			r.Get(4)
			for i := 0; i < c; i++ {
				ch := Chan{Tag: r.U32(8)}
				ch.ISO = r.Take(3)
				ch.Mode = r.U32(3)
				ch.Num = r.U32(4)
				ch.Full = r.Bool()
				d.Chans = append(d.Chans, ch)
			}
		}
	} else {
		d.Kind = Private
		d.Tag = tag
		d.Ident = ident
		d.Bytes = r.Take(r.Left())
	}
	err = class(r)
	if over {
		err = Overflow
	}
	return d, err, over, loose
}

func (s *SegDesc) decode(r *BitReader) (loose bool) {
	s.ID = r.U32(32)
	s.Cancel = r.Bool()
	s.Compliance = !r.Bool()
	r.Get(6)
	if s.Cancel {
		return
	}
	program := r.Bool()
	dur := r.Bool()
	free := r.Bool()
	if free {
		r.Get(5)
	} else {
		s.Restr = &Restr{Web: r.Bool(), Regional: r.Bool(), Archive: r.Bool(), Device: r.U32(2)}
	}
	if !program {
		n := int(r.Get(8))
		if n == 0 {
			loose = true // re-encoded as a program segmentation
		}
		for i := 0; i < n; i++ {
			c := SegComp{Tag: r.U32(8)}
			r.Get(7)
			c.Off = r.Get(33)
			s.Comps = append(s.Comps, c)
		}
	}
	if dur {
		s.Dur = U64(r.Get(40))
	}
	t := r.U32(8)
	n := int(r.Get(8))
	if n > 0 {
		v := r.Take(n)
		if t == 0x0D {
			m := &BitReader{b: v}
			for m.Left() > 0 {
				u := UPID{Type: m.U32(8)}
				k := int(m.Get(8))
				u.Raw = m.Take(k)
				// a nested upid cut short is kept as far as it goes
				s.UPIDs = append(s.UPIDs, u)
			}
		} else {
			s.UPIDs = []UPID{{Type: t, Raw: v}}
		}
	}
	for _, u := range s.UPIDs {
		if u.Type == 0x08 && len(u.Raw) > 8 {
			loose = true
		}
	}
	s.Type = r.U32(8)
	s.Num = r.U32(8)
	s.Exp = r.U32(8)
	if r.Left() == 2 && SubSegTypes[s.Type] {
		s.SubNum = U32(r.U32(8))
		s.SubExp = U32(r.U32(8))
	}
	return loose
}
