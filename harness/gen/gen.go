// Package gen generates reference sections for rapid.
package gen

import (
	"math/bits"

	"pgregory.net/rapid"

	"verifharness/ref"
)

// Cfg narrows the sections generated to the domain of a property.
type Cfg struct {
	Doc      bool // must survive a text document: printable text, no edge whitespace
	Table    bool // text must stay on one line
	Encrypt  bool // allow encryption algorithms other than none
	NoStuff  bool // no alignment stuffing
	PreRoll  bool // document pre-roll
	WireUPID bool // UPIDs may have any wire form, not only those that re-encode
	Cmds     []uint32
	Kinds    []string
	MaxBytes int // budget for the whole section; default 4093+3
	NoBulk   bool
}

var bit = rapid.Bool()

// N draws an int in [lo,hi]; small ranges evenly (rapid's own integers favour
// few bits, which would starve the later alternatives of a choice).
func N(t *rapid.T, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	r := hi - lo + 1
	if r > 64 {
		return rapid.IntRange(lo, hi).Draw(t, "n")
	}
	k := bits.Len(uint(r-1)) + 1
	if r&(r-1) == 0 {
		k--
	}
	v := 0
	for i := 0; i < k; i++ {
		v <<= 1
		if bit.Draw(t, "bit") {
			v |= 1
		}
	}
	return lo + v*r>>k
}

// P is true pct percent of the time.
func P(t *rapid.T, pct int) bool {
	// compare a uniform number, drawn bit by bit, with the threshold; zero bits
	// (what shrinking aims at) mean false
	th := uint64(100-pct) << 32 / 100
	for i := 31; i >= 0; i-- {
		b, d := th>>uint(i)&1 == 1, bit.Draw(t, "bit")
		if b != d {
			return d
		}
	}
	return true
}

// B draws a bool.
func B(t *rapid.T) bool { return bit.Draw(t, "b") }

// What the present case has drawn so far, to be drawn again: fields that
// should be unrelated are equal now and then.
var (
	pastNums  []uint64
	pastBytes [][]byte
)

// Forget is called before each case.
func Forget() {
	pastNums, pastBytes = pastNums[:0], pastBytes[:0]
}

// U draws a boundary-biased unsigned number of the given number of bits.
func U(t *rapid.T, width int) uint64 {
	v := freshU(t, width)
	if width > 3 && len(pastNums) < 200 {
		pastNums = append(pastNums, v)
	}
	return v
}

func freshU(t *rapid.T, width int) uint64 {
	max := uint64(1)<<uint(width) - 1
	if width >= 64 {
		max = ^uint64(0)
	}
	switch N(t, 0, 11) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return 1
	case 3:
		return max - 1
	case 4:
		return uint64(1) << uint(N(t, 0, width-1))
	case 5:
		return uint64(1)<<uint(N(t, 0, width-1)) - 1
	case 6:
		return max / 2
	case 7:
		if v, ok := dictU(t, max); ok {
			return v
		}
		fallthrough
	case 8:
		if n := len(pastNums); n > 0 {
			return pastNums[N(t, 0, n-1)] & max
		}
		fallthrough
	default:
		v := rapid.Uint64Range(0, max).Draw(t, "u")
		if B(t) {
			// spread the width: biased draws favour small numbers
			v = (v * 0x9E3779B97F4A7C15) & max
		}
		return v
	}
}

// U32 is U for 32 bits and fewer.
func U32(t *rapid.T, width int) uint32 { return uint32(U(t, width)) }

// Bytes draws between lo and hi bytes.
func Bytes(t *rapid.T, lo, hi int) []byte {
	b := plainBytes(t, lo, hi)
	if len(b) > 0 && P(t, 10) {
		if k := len(pastBytes); k > 0 && P(t, 35) {
			copy(b, pastBytes[N(t, 0, k-1)])
		} else {
			dictBytes(t, b)
		}
	}
	if len(b) > 0 && len(b) < 64 && len(pastBytes) < 50 {
		pastBytes = append(pastBytes, append([]byte{}, b...))
	}
	return b
}

func plainBytes(t *rapid.T, lo, hi int) []byte {
	n := N(t, lo, hi)
	if n < hi && P(t, 3) { // a length the code knows of
		if v, ok := dictU(t, uint64(hi)); ok && int(v) >= lo {
			n = int(v)
		}
	}
	if n > 24 {
		// a long string is a repeated short one, to keep draws few
		k := N(t, 1, 16)
		pat := rapid.SliceOfN(rapid.Byte(), k, k).Draw(t, "pattern")
		step := byte(N(t, 0, 7))
		out := make([]byte, n)
		for i := range out {
			out[i] = pat[i%k] + byte(i/k)*step
		}
		return out
	}
	return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "bytes")
}

// Printable draws lo..hi printable ASCII bytes without edge blanks.
func Printable(t *rapid.T, lo, hi int) []byte {
	b := Bytes(t, lo, hi)
	for i := range b {
		b[i] = 0x21 + b[i]%0x5E
		if b[i] == '~' && i > 0 && i < len(b)-1 {
			b[i] = ' '
		}
	}
	return b
}

// Text draws lo..hi bytes of ISO 8859-1 text that survives a document:
// printable characters, no blanks at either end.
func Text(t *rapid.T, lo, hi int) []byte {
	b := Bytes(t, lo, hi)
	for i := range b {
		b[i] = docByte(b[i], i == 0 || i == len(b)-1)
	}
	return b
}

func docByte(c byte, edge bool) byte {
	switch {
	case c < 0x20:
		c += 0x40
	case c >= 0x7F && c < 0xA0:
		c += 0x40
	}
	if edge && (c == 0x20 || c == 0xA0) {
		c = 'x'
	}
	return c
}

func maybePTS(t *rapid.T) *uint64 {
	if P(t, 30) {
		return nil
	}
	return ref.U64(U(t, 33))
}

func brk(t *rapid.T) *ref.Break {
	if B(t) {
		return nil
	}
	return &ref.Break{Auto: B(t), Dur: U(t, 33)}
}

// count draws a number of repeated elements, seldom a large one.
func count(t *rapid.T, c Cfg, max int) int {
	if max <= 0 {
		return 0
	}
	if c.NoBulk {
		return min(N(t, 0, 4), max)
	}
	switch k := N(t, 0, 39); {
	case k == 39:
		return max
	case k == 38:
		return max - 1
	case k == 37:
		return N(t, 0, max)
	case k == 36:
		return min(max, N(t, 15, 18))
	case k == 35:
		if v, ok := dictU(t, uint64(max)); ok {
			return int(v)
		}
		fallthrough
	default:
		return min(max, N(t, 0, 4))
	}
}

var allCmds = []uint32{ref.CmdNull, ref.CmdTime, ref.CmdInsert, ref.CmdSchedule, ref.CmdPrivate, ref.CmdBandwidth}

// Command draws a command of at most room bytes.
func Command(t *rapid.T, c Cfg, room int) ref.Cmd {
	cmds := c.Cmds
	if cmds == nil {
		cmds = allCmds
		if P(t, 35) {
			cmds = []uint32{ref.CmdInsert}
		} else if P(t, 20) {
			cmds = []uint32{ref.CmdSchedule}
		}
	}
	typ := cmds[N(t, 0, len(cmds)-1)]
	cmd := ref.Cmd{Type: typ}
	switch typ {
	case ref.CmdTime:
		cmd.PTS = maybePTS(t)
	case ref.CmdInsert:
		cmd.Insert = insert(t, c, room)
	case ref.CmdSchedule:
		cmd.Events = events(t, c, room)
	case ref.CmdPrivate:
		cmd.PrivID = U32(t, 32)
		hi := 24
		if !c.NoBulk && P(t, 12) {
			hi = min(room-4, []int{300, 1000, 4000}[N(t, 0, 2)])
		}
		cmd.Priv = Bytes(t, 0, hi)
	}
	return cmd
}

func insert(t *rapid.T, c Cfg, room int) *ref.Insert {
	i := &ref.Insert{ID: U32(t, 32)}
	if P(t, 12) {
		i.Cancel = true
		return i
	}
	i.OON = B(t)
	i.Program = !P(t, 45)
	i.Immediate = P(t, 30)
	if i.Program {
		if !i.Immediate {
			i.PTS = maybePTS(t)
		}
	} else {
		n := count(t, c, min(255, (room-20)/6))
		if n > 6 {
			a, b := comp(t, i.Immediate), comp(t, i.Immediate)
			for k := 0; k < n; k++ {
				v := a
				if k%3 == 1 {
					v = b
				}
				v.Tag = (v.Tag + uint32(k)) & 0xFF
				if v.PTS != nil {
					v.PTS = ref.U64((*v.PTS + uint64(k)*7919) & (1<<33 - 1))
				}
				i.Comps = append(i.Comps, v)
			}
		} else {
			for k := 0; k < n; k++ {
				i.Comps = append(i.Comps, comp(t, i.Immediate))
			}
		}
	}
	i.Break = brk(t)
	i.UPI, i.Num, i.Exp = U32(t, 16), U32(t, 8), U32(t, 8)
	return i
}

func comp(t *rapid.T, immediate bool) ref.Comp {
	v := ref.Comp{Tag: U32(t, 8)}
	if !immediate {
		v.PTS = maybePTS(t)
	}
	return v
}

func events(t *rapid.T, c Cfg, room int) []ref.Event {
	var out []ref.Event
	n := count(t, c, 255)
	used := 1
	var tmpl []ref.Event
	for k := 0; k < n; k++ {
		var e ref.Event
		if n > 6 && k >= 3 {
			e = tmpl[k%3]
			e.ID += uint32(k) * 65537
			e.UTC += uint32(k) * 99991
			e.Num = (e.Num + uint32(k)) & 0xFF
		} else {
			e = event(t, c, room-used, n)
			tmpl = append(tmpl, e)
		}
		l := eventLen(&e)
		if used+l > room {
			break
		}
		used += l
		out = append(out, e)
	}
	return out
}

func eventLen(e *ref.Event) int {
	c := ref.Cmd{Type: ref.CmdSchedule, Events: []ref.Event{*e}}
	return c.Len() - 1
}

func event(t *rapid.T, c Cfg, room, n int) ref.Event {
	e := ref.Event{ID: U32(t, 32), Compliance: B(t)}
	if P(t, 15) {
		e.Cancel = true
		return e
	}
	e.OON = B(t)
	e.Program = !P(t, 45)
	if e.Program {
		e.UTC = U32(t, 32)
	} else {
		m := min(N(t, 0, 4), max(0, (room-15)/5))
		if n <= 2 {
			m = count(t, c, max(0, min(255, (room-15)/5)))
		}
		if m > 6 {
			a, b := ref.EvComp{Tag: U32(t, 8), UTC: U32(t, 32)}, ref.EvComp{Tag: U32(t, 8), UTC: U32(t, 32)}
			for k := 0; k < m; k++ {
				v := a
				if k%3 == 1 {
					v = b
				}
				v.Tag = (v.Tag + uint32(k)) & 0xFF
				v.UTC += uint32(k) * 104729
				e.Comps = append(e.Comps, v)
			}
		} else {
			for k := 0; k < m; k++ {
				e.Comps = append(e.Comps, ref.EvComp{Tag: U32(t, 8), UTC: U32(t, 32)})
			}
		}
	}
	e.Break = brk(t)
	e.UPI, e.Num, e.Exp = U32(t, 16), U32(t, 8), U32(t, 8)
	return e
}

var segTypes = func() []uint32 {
	var out []uint32
	for v := uint32(0); v < 256; v++ {
		if _, ok := ref.SegNames[v]; ok {
			out = append(out, v)
		}
	}
	return out
}()

var subTypes = []uint32{0x30, 0x32, 0x34, 0x36, 0x38, 0x3A, 0x44, 0x46}

// UPID draws a UPID of lo..hi wire bytes.
func UPID(t *rapid.T, c Cfg, lo, hi int, nested bool) ref.UPID {
	typ := upidType(t, nested)
	return UPIDOf(t, c, typ, lo, hi)
}

func upidType(t *rapid.T, nested bool) uint32 {
	for {
		var typ uint32
		switch N(t, 0, 9) {
		case 0:
			typ = U32(t, 8)
		case 1:
			typ = 0x0A
		case 2:
			typ = 0x08
		case 3:
			typ = 0x0C
		case 4:
			typ = []uint32{0x05, 0x06}[N(t, 0, 1)]
		default:
			typ = uint32(N(t, 1, 0x11))
		}
		if typ == 0x0D && !nested {
			typ = 0x09
		}
		return typ
	}
}

// UPIDOf draws a UPID of the given type.
func UPIDOf(t *rapid.T, c Cfg, typ uint32, lo, hi int) ref.UPID {
	u := ref.UPID{Type: typ}
	fallback := func() ref.UPID { // no room for the type wanted
		u.Type = 0x09
		u.Raw = textUPID(t, c, lo, hi)
		return u
	}
	switch typ {
	case 0x0A:
		if c.WireUPID && P(t, 20) {
			u.Raw = Bytes(t, lo, hi)
			if B(t) && len(u.Raw) > 0 {
				u.Raw[len(u.Raw)/2] = '/'
			}
			return u
		}
		if hi < 12 {
			return fallback()
		}
		u.Raw = Bytes(t, 12, 12)
		if P(t, 60) {
			p := uint32(5237 + N(t, 0, 3))
			if P(t, 20) {
				p = U32(t, 16)
			}
			u.Raw[0], u.Raw[1] = byte(p>>8), byte(p)
		}
		if P(t, 25) {
			u.Raw[N(t, 2, 11)] = 0x2F
		}
	case 0x08:
		if c.WireUPID && P(t, 25) {
			u.Raw = Bytes(t, lo, min(hi, 8))
			return u
		}
		if hi < 8 {
			return fallback()
		}
		u.Raw = make([]byte, 8)
		v := U(t, 64)
		for i := range u.Raw {
			u.Raw[i] = byte(v >> uint(56-8*i))
		}
	case 0x0C:
		if c.WireUPID && P(t, 20) {
			u.Raw = Bytes(t, lo, min(hi, 6))
			return u
		}
		if hi < 4 {
			return fallback()
		}
		u.Raw = Bytes(t, 4, min(hi, 40))
		if c.Table {
			copy(u.Raw, Printable(t, 4, 4))
		}
	case 0x05, 0x06:
		if B(t) && lo <= 12 && hi >= 12 {
			u.Raw = Bytes(t, 12, 12)
		} else {
			u.Raw = Bytes(t, lo, hi)
		}
	default:
		u.Raw = textUPID(t, c, lo, hi)
	}
	return u
}

func textUPID(t *rapid.T, c Cfg, lo, hi int) []byte {
	h := hi
	if h > 20 && !P(t, 6) {
		h = 20
	}
	if c.Doc || c.Table {
		return Text(t, min(lo, h), h)
	}
	switch N(t, 0, 5) {
	case 0:
		b := Bytes(t, min(lo, h), h)
		if len(b) > 0 { // blanks at the ends
			b[0] = []byte{' ', '\n', '\t', 0x85, 0xA0, 0}[N(t, 0, 5)]
			b[len(b)-1] = []byte{' ', '\n', '\r', 0x85, 0xA0, 0}[N(t, 0, 5)]
		}
		return b
	case 1, 2:
		return Printable(t, min(lo, h), h)
	case 3:
		return Text(t, min(lo, h), h)
	}
	return Bytes(t, min(lo, h), h)
}

// Seg draws a segmentation descriptor whose descriptor_length is at most 255.
func Seg(t *rapid.T, c Cfg, room int) *ref.SegDesc {
	s := &ref.SegDesc{ID: U32(t, 32), Compliance: B(t)}
	if P(t, 10) {
		s.Cancel = true
		return s
	}
	left := min(room, 255) - 15 // identifier .. expected, without the optional parts
	if B(t) {
		s.Restr = &ref.Restr{Web: B(t), Regional: B(t), Archive: B(t), Device: U32(t, 2)}
	}
	if P(t, 45) && left >= 5 {
		s.Dur = ref.U64(U(t, 40))
		left -= 5
	}
	switch N(t, 0, 3) {
	case 0:
		s.Type = U32(t, 8)
	case 1:
		s.Type = subTypes[N(t, 0, len(subTypes)-1)]
	default:
		s.Type = segTypes[N(t, 0, len(segTypes)-1)]
	}
	if ref.SubSegTypes[s.Type] && P(t, 60) && left >= 2 {
		s.SubNum, s.SubExp = ref.U32(U32(t, 8)), ref.U32(U32(t, 8))
		left -= 2
	}
	s.Num, s.Exp = U32(t, 8), U32(t, 8)
	if P(t, 25) && left >= 7 {
		n := 1 + count(t, c, (left-7)/6)
		for k := 0; k < n; k++ {
			if k < 4 {
				s.Comps = append(s.Comps, ref.SegComp{Tag: U32(t, 8), Off: U(t, 33)})
			} else {
				p := s.Comps[k-4]
				s.Comps = append(s.Comps, ref.SegComp{Tag: (p.Tag + 5) & 0xFF, Off: (p.Off*3 + 1) & (1<<33 - 1)})
			}
		}
		left -= 1 + 6*n
	}
	switch k := N(t, 0, 9); {
	case k <= 2:
	case k <= 6: // one
		if left >= 1 {
			s.UPIDs = []ref.UPID{UPID(t, c, 1, min(left, 255), false)}
		}
	default: // MID
		n := N(t, 2, 4)
		if !c.NoBulk && P(t, 5) {
			n = N(t, 5, 60)
		}
		var us []ref.UPID
		used := 0
		for j := 0; j < n; j++ {
			r := left - used - 2
			if j == 0 {
				r -= 3
			}
			if r < 1 {
				break
			}
			hi := min(r, 255)
			if n > 4 {
				hi = min(hi, 4)
			}
			lo := 0
			if P(t, 80) {
				lo = 1
			}
			u := UPID(t, c, min(lo, hi), hi, true)
			us = append(us, u)
			used += 2 + len(u.Raw)
		}
		if len(us) == 1 && (len(us[0].Raw) == 0 || us[0].Type == 0x0D) {
			us = nil
		}
		s.UPIDs = us
	}
	return s
}

var allKinds = []string{ref.Seg, ref.Seg, ref.Seg, ref.Seg, ref.Avail, ref.DTMF, ref.Time, ref.Audio, ref.Private, ref.Private}

// Descriptor draws a descriptor of at most room bytes, tag and length
// included; room must be at least 64.
func Descriptor(t *rapid.T, c Cfg, room int) ref.Desc {
	kinds := c.Kinds
	if kinds == nil {
		kinds = allKinds
	}
	d := ref.Desc{Kind: kinds[N(t, 0, len(kinds)-1)]}
	room -= 2
	switch d.Kind {
	case ref.Avail:
		d.AvailID = U32(t, 32)
	case ref.DTMF:
		d.Preroll = U32(t, 8)
		n := N(t, 0, 7)
		if c.Doc || c.Table {
			for i := 0; i < n; i++ {
				d.Chars = append(d.Chars, "0123456789*#"[N(t, 0, 11)])
			}
		} else {
			d.Chars = Bytes(t, n, n)
		}
	case ref.Time:
		d.TAI, d.NS, d.Offset = U(t, 48), U32(t, 32), U32(t, 16)
	case ref.Audio:
		n := min(N(t, 0, 5), (room-5)/5)
		if P(t, 10) {
			n = min(15, (room-5)/5)
		}
		for i := 0; i < n; i++ {
			ch := ref.Chan{Tag: U32(t, 8), Mode: U32(t, 3), Num: U32(t, 4), Full: B(t)}
			if c.Doc || c.Table {
				ch.ISO = Printable(t, 3, 3)
				for j := range ch.ISO {
					ch.ISO[j] = 'a' + ch.ISO[j]%26
				}
			} else {
				ch.ISO = Bytes(t, 3, 3)
			}
			d.Chans = append(d.Chans, ch)
		}
	case ref.Private:
		d.Tag = U32(t, 8)
		if P(t, 25) {
			d.Ident = ref.CUEI
			d.Tag = uint32(N(t, 5, 255))
		} else {
			d.Ident = U32(t, 32)
			if d.Ident == ref.CUEI && d.Tag <= 4 {
				d.Ident ^= 1
			}
		}
		hi := min(room-4, 20)
		if !c.NoBulk && P(t, 12) {
			hi = min(room-4, 251)
		}
		d.Bytes = Bytes(t, 0, hi)
	case ref.Seg:
		d.S = Seg(t, c, room)
	}
	return d
}

// again copies a descriptor, changing a detail now and then.
func again(t *rapid.T, from ref.Desc) ref.Desc {
	d := from.Clone()
	if d.S != nil && !d.S.Cancel && B(t) {
		switch N(t, 0, 2) {
		case 0:
			d.S.ID ^= 1
		case 1:
			d.S.Num = (d.S.Num + 1) & 0xFF
		case 2:
			if !ref.SubSegTypes[d.S.Type] && !ref.SubSegTypes[d.S.Type^1] {
				d.S.Type ^= 1
			}
		}
	}
	return d
}

// Section draws a section whose canonical encoding fits section_length.
func Section(t *rapid.T, c Cfg) *ref.Section {
	s := &ref.Section{SAP: U32(t, 2), PTSAdj: U(t, 33), CW: U32(t, 8), Tier: U32(t, 12)}
	if P(t, 25) {
		s.PV = U32(t, 8)
	}
	if c.Encrypt && P(t, 20) {
		s.EncAlg = uint32(N(t, 1, 63))
	}
	if c.PreRoll && P(t, 30) {
		s.PreRoll = U32(t, 32)
	}
	left := c.MaxBytes
	if left == 0 {
		left = 4096
	}
	left -= 3 + 11 + 2 + 8
	s.Cmd = Command(t, c, left)
	left -= s.Cmd.Len()
	if !c.NoStuff && P(t, 15) {
		n := N(t, 1, 9)
		if n == 9 && !c.NoBulk {
			n = N(t, 9, 300)
		}
		n = min(n, left)
		if n > 0 {
			s.Stuff = Bytes(t, n, n)
			left -= n
		}
	}
	n := N(t, 0, 4)
	if !c.NoBulk && P(t, 4) {
		n = N(t, 5, 40)
	}
	for i := 0; i < n && left >= 64; i++ {
		var d ref.Desc
		if i > 0 && P(t, 7) {
			d = again(t, s.Descs[N(t, 0, i-1)])
		} else {
			d = Descriptor(t, c, min(left, 257))
		}
		l := len(d.Encode(ref.EncOpts{}))
		if l > left {
			break
		}
		left -= l
		s.Descs = append(s.Descs, d)
	}
	if !c.NoBulk && P(t, 2) { // fill the section to the brim with little descriptors
		for k := 0; left >= 10; k++ {
			d := ref.Desc{Kind: ref.Avail, AvailID: uint32(k) * 2654435761}
			s.Descs = append(s.Descs, d)
			left -= 10
		}
	}
	return s
}

// Reserved draws a source of reserved bits that is a pure function of the
// drawn pattern.
func Reserved(pattern uint64) func(int) uint64 {
	i := 0
	return func(n int) uint64 {
		i++
		x := pattern + uint64(i)*0x9E3779B97F4A7C15
		x ^= x >> 29
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 32
		return x & (1<<uint(n) - 1)
	}
}
