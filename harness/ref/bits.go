package ref

// BitWriter appends bits, most significant first.
type BitWriter struct {
	b []byte
	n int // bits written
	// Res supplies the value of reserved bits; nil means all ones.
	Res func(n int) uint64
	// MID makes a MID of one UPID or none too.
	MID bool
}

// Put appends the low n bits of v.
func (w *BitWriter) Put(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if i < 64 && v>>uint(i)&1 == 1 {
			w.b[w.n/8] |= 1 << uint(7-w.n%8)
		}
		w.n++
	}
}

// Bool appends one bit.
func (w *BitWriter) Bool(v bool) {
	if v {
		w.Put(1, 1)
	} else {
		w.Put(1, 0)
	}
}

// Reserved appends n reserved bits.
func (w *BitWriter) Reserved(n int) {
	if w.Res != nil {
		w.Put(n, w.Res(n))
		return
	}
	w.Put(n, 1<<uint(n)-1)
}

// Bytes appends bytes.
func (w *BitWriter) Bytes(b []byte) {
	for _, c := range b {
		w.Put(8, uint64(c))
	}
}

// Out returns the bytes.
func (w *BitWriter) Out() []byte {
	if w.n%8 != 0 {
		panic("ref: unaligned")
	}
	return w.b
}

// BitReader reads bits; reading past the end yields zeros and sets Over.
type BitReader struct {
	b    []byte
	pos  int
	Over bool
}

// Get reads n bits.
func (r *BitReader) Get(n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v <<= 1
		if r.pos < len(r.b)*8 {
			v |= uint64(r.b[r.pos/8]>>uint(7-r.pos%8)) & 1
		} else {
			r.Over = true
		}
		r.pos++
	}
	return v
}

// U32 reads n bits.
func (r *BitReader) U32(n int) uint32 { return uint32(r.Get(n)) }

// Bool reads a bit.
func (r *BitReader) Bool() bool { return r.Get(1) == 1 }

// Left is the number of whole bytes left.
func (r *BitReader) Left() int {
	l := len(r.b) - (r.pos+7)/8
	if l < 0 {
		return 0
	}
	return l
}

// Take returns up to n bytes; Over is set if fewer are left.
func (r *BitReader) Take(n int) []byte {
	if r.pos%8 != 0 {
		panic("ref: unaligned take")
	}
	l := r.Left()
	if n > l {
		r.Over = true
		n = l
	}
	out := append([]byte{}, r.b[min(r.pos/8, len(r.b)):][:n]...)
	r.pos += n * 8
	return out
}

// CRC32 is the MPEG-2 CRC-32, bit by bit.
func CRC32(b []byte) uint32 {
	crc := uint32(0xFFFFFFFF)
	for _, c := range b {
		for i := 7; i >= 0; i-- {
			bit := uint32(c>>uint(i))&1 ^ crc>>31
			crc <<= 1
			if bit == 1 {
				crc ^= 0x04C11DB7
			}
		}
	}
	return crc
}

// FixCRC rewrites the last four bytes so that the CRC is right.
func FixCRC(b []byte) []byte {
	out := append([]byte{}, b...)
	if len(out) < 4 {
		return out
	}
	c := CRC32(out[:len(out)-4])
	out[len(out)-4] = byte(c >> 24)
	out[len(out)-3] = byte(c >> 16)
	out[len(out)-2] = byte(c >> 8)
	out[len(out)-1] = byte(c)
	return out
}
