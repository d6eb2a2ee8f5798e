package checks

import (
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
)

// dataCase is a case that is a byte string.
type dataCase struct {
	Data ref.Hex `json:"data"`
}

// lie rewrites length, count, type and flag fields of a valid encoding so that
// the structure contradicts itself; the positions are found by walking the
// encoding the way the reference encoder laid it out.
type layout struct {
	cmdLenAt, cmdAt, cmdLen int
	loopLenAt, loopAt       int
	descs                   []int // offsets of descriptor tags
}

func layoutOf(s *ref.Section) layout {
	var l layout
	l.cmdLenAt = 11 // the 12 bits start in the low half of this byte
	l.cmdAt = 14
	l.cmdLen = s.Cmd.Len()
	l.loopLenAt = l.cmdAt + l.cmdLen
	l.loopAt = l.loopLenAt + 2
	at := l.loopAt
	for i := range s.Descs {
		l.descs = append(l.descs, at)
		at += len(s.Descs[i].Encode(ref.EncOpts{}))
	}
	return l
}

func put12(b []byte, at int, v int) { // low nibble of at, then at+1
	b[at] = b[at]&0xF0 | byte(v>>8)&0x0F
	b[at+1] = byte(v)
}

func get12(b []byte, at int) int { return int(b[at]&0x0F)<<8 | int(b[at+1]) }

// delta draws a small or large change of a length.
func delta(t *rapid.T, v, max int) int {
	switch gen.N(t, 0, 7) {
	case 0:
		return min(v+1, max)
	case 1:
		return v - 1
	case 2:
		return min(v+gen.N(t, 1, 12), max)
	case 3:
		return v - gen.N(t, 1, 12)
	case 4:
		return 0
	case 5:
		return max
	case 6:
		return gen.N(t, 0, max)
	}
	return v + 4
}

// malformed draws a byte string near a valid section.  crc says whether the
// CRC is put right afterwards.
func malformed(t *rapid.T, s *ref.Section, fix bool) []byte {
	opts := ref.EncOpts{}
	if gen.P(t, 10) {
		opts.Legacy = true
	}
	b := s.Encode(opts)
	l := layoutOf(s)
	n := 1
	if gen.P(t, 25) {
		n = gen.N(t, 2, 4)
	}
	for k := 0; k < n; k++ {
		b = mutate1(t, b, l)
	}
	if fix && len(b) >= 4 {
		b = ref.FixCRC(b)
	}
	return b
}

func mutate1(t *rapid.T, b []byte, l layout) []byte {
	if len(b) == 0 {
		return gen.Bytes(t, 0, 30)
	}
	at := func() int { return gen.N(t, 0, len(b)-1) }
	clampByte := func(v int) byte { return byte(max(0, min(v, 255))) }
	switch gen.N(t, 0, 13) {
	case 0: // splice_command_length
		if l.cmdLenAt+1 < len(b) {
			put12(b, l.cmdLenAt, max(0, delta(t, get12(b, l.cmdLenAt), 0xFFF)))
		}
	case 1: // splice_command_type
		if l.cmdAt-1 < len(b) {
			b[l.cmdAt-1] = []byte{0, 4, 5, 6, 7, 0xFF, 1, 8}[gen.N(t, 0, 7)]
		}
	case 2: // descriptor_loop_length
		if l.loopLenAt+1 < len(b) {
			v := max(0, delta(t, int(b[l.loopLenAt])<<8|int(b[l.loopLenAt+1]), 0xFFFF))
			b[l.loopLenAt], b[l.loopLenAt+1] = byte(v>>8), byte(v)
		}
	case 3, 4: // descriptor_length
		if len(l.descs) > 0 {
			d := l.descs[gen.N(t, 0, len(l.descs)-1)]
			if d+1 < len(b) {
				b[d+1] = clampByte(delta(t, int(b[d+1]), 255))
			}
		}
	case 5: // descriptor tag or identifier
		if len(l.descs) > 0 {
			d := l.descs[gen.N(t, 0, len(l.descs)-1)]
			if gen.B(t) {
				if d < len(b) {
					b[d] = byte(gen.N(t, 0, 5))
				}
			} else if d+5 < len(b) {
				b[d+2+gen.N(t, 0, 3)] ^= byte(1 << uint(gen.N(t, 0, 7)))
			}
		}
	case 6, 7: // a byte inside a descriptor's body: flags, counts, UPID type and length
		if len(l.descs) > 0 {
			d := l.descs[gen.N(t, 0, len(l.descs)-1)]
			if d+6 < len(b) {
				end := min(len(b)-1, d+1+int(b[d+1]))
				if end >= d+6 {
					i := gen.N(t, d+6, end)
					b[i] = clampByte(delta(t, int(b[i]), 255))
				}
			}
		}
	case 8: // a byte inside the command
		if l.cmdLen > 0 && l.cmdAt+l.cmdLen <= len(b) {
			i := l.cmdAt + gen.N(t, 0, l.cmdLen-1)
			b[i] = clampByte(delta(t, int(b[i]), 255))
		}
	case 9: // truncate
		b = b[:at()]
	case 10: // drop bytes
		i := at()
		j := min(len(b), i+gen.N(t, 1, 6))
		b = append(append([]byte{}, b[:i]...), b[j:]...)
	case 11: // insert bytes
		i := at()
		b = append(append(append([]byte{}, b[:i]...), gen.Bytes(t, 1, 6)...), b[i:]...)
	case 12: // flip a bit
		b[at()] ^= 1 << uint(gen.N(t, 0, 7))
	case 13: // encrypted_packet flag and algorithm
		if len(b) > 4 {
			b[4] ^= []byte{0x80, 0x02, 0x82, 0x7E}[gen.N(t, 0, 3)]
		}
	}
	return b
}

// anyBytes draws byte strings from wild to nearly valid.
func anyBytes(t *rapid.T) []byte {
	switch gen.N(t, 0, 9) {
	case 0:
		return gen.Bytes(t, 0, 400)
	case 1: // a header, then anything
		b := []byte{0xFC, 0x30, 0x11, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xF0, 0x05, byte([]int{0, 4, 5, 6, 7, 255}[gen.N(t, 0, 5)])}
		put12(b, 11, gen.N(t, 0, 60))
		b = append(b, gen.Bytes(t, 0, 120)...)
		if gen.B(t) {
			b = ref.FixCRC(b)
		}
		return b
	case 2: // legacy length
		b := []byte{0xFC, 0x30, 0x11, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xFF, 0xFF, byte([]int{0, 4, 5, 6, 7, 255}[gen.N(t, 0, 5)])}
		b = append(b, gen.Bytes(t, 0, 120)...)
		if gen.B(t) {
			b = ref.FixCRC(b)
		}
		return b
	default:
		s := gen.Section(t, gen.Cfg{Encrypt: true, WireUPID: true, NoBulk: gen.P(t, 70)})
		return malformed(t, s, !gen.P(t, 25))
	}
}

// fuzzSignal makes a case of the bytes of the fuzzer: the last one says
// whether the CRC is put right, without which little would be reached.
func fuzzSignal(b []byte) dataCase {
	if len(b) == 0 {
		return dataCase{}
	}
	d := append([]byte{}, b[:len(b)-1]...)
	if b[len(b)-1]&3 != 0 {
		d = ref.FixCRC(d)
	}
	return dataCase{d}
}

// signalSeed is the i-th input a campaign on signals starts from.
func signalSeed(i int) []byte {
	if i == 0 {
		return nil
	}
	g := rapid.Custom(func(t *rapid.T) []byte {
		return gen.Section(t, gen.Cfg{Encrypt: true, WireUPID: true, NoBulk: true, MaxBytes: 200}).Canonical()
	})
	return append(g.Example(i), 1)
}
