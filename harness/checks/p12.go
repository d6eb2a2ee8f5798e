package checks

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// checkPartial: whatever the reference finds readable must be there.
func checkPartial(c dataCase, o *core.Obs) error {
	r := ref.Decode(c.Data)
	sis, err := decode(c.Data)
	if r.Err == ref.OK {
		o.Label("not damaged")
		return nil
	}
	if err == nil {
		return fail("damage (%s) is not reported: %s", r.Err, c.Data)
	}
	return partial(sis, r, len(c.Data), o)
}

// checkAccepted compares the content of a signal the reference finds sound,
// whatever generated bytes it came from.
func checkAccepted(conforming bool) func(dataCase, *core.Obs) error {
	return func(c dataCase, o *core.Obs) error {
		r := ref.Decode(c.Data)
		if r.Err != ref.OK {
			o.Label("unsound")
			return nil
		}
		if r.Loose {
			o.Label("sound, of no fixed meaning")
			return nil
		}
		if !r.Sec.Fits() {
			o.Label("sound, too long to be canonical")
			if conforming {
				return nil
			}
		} else if bytes.Equal(r.Sec.Canonical(), c.Data) {
			o.Label("sound, canonical")
		} else if o.Label("sound, not canonical"); conforming {
			return nil
		}
		o.NonTrivial()
		sis, err := decode(c.Data)
		if err != nil {
			return fail("a sound section is rejected: %v: %s", err, c.Data)
		}
		if err := api.Cmp(sis, r.Sec); err != nil {
			return fail("decoded wrongly: %v: %s", err, c.Data)
		}
		return api.Leftovers(sis)
	}
}

func partial(sis *scte35.SpliceInfoSection, r *ref.Result, n int, o *core.Obs) error {
	got := api.Lines(sis)
	want := r.Sec.APILines()
	// the header: six lines, each readable from some byte on
	for i, need := range []int{2, 4, 5, 9, 10, 12} {
		if n >= need && got[i] != want[i] {
			return fail("header: got %s, want %s", got[i], want[i])
		}
	}
	if n < 14 {
		o.Label("header cut")
		return nil
	}
	o.Label("header complete")
	gotCmd := api.CommandLines(sis.SpliceCommand)
	if r.CmdErr {
		o.Label("command unsound: " + r.Err)
		if r.Err == ref.Underflow { // bytes too many: all of its fields were readable
			o.NonTrivial()
			if d := ref.Diff(gotCmd, r.Sec.Cmd.Lines()); d != "" {
				return fail("command with bytes left over: %s", d)
			}
		} else if len(gotCmd) == 0 || gotCmd[0] != r.Sec.Cmd.Lines()[0] {
			return fail("kind of the command: got %v, want type %d", gotCmd, r.Sec.Cmd.Type)
		}
		return nil
	}
	o.NonTrivial()
	if d := ref.Diff(gotCmd, r.Sec.Cmd.Lines()); d != "" {
		return fail("command: %s", d)
	}
	if len(sis.SpliceDescriptors) != len(r.Sec.Descs) {
		return fail("%d descriptors, want %d", len(sis.SpliceDescriptors), len(r.Sec.Descs))
	}
	if len(r.DescErr) > 0 && !r.Loose {
		bad := false
		for i, e := range r.DescErr {
			g := api.DescriptorLines(sis.SpliceDescriptors[i])
			w := r.Sec.Descs[i].APILines()
			if e == ref.OK || (e == ref.Underflow && !r.DescOver[i]) {
				o.LabelIf(bad, "sound descriptor after an unsound one")
				o.LabelIf(e != ref.OK, "descriptor with bytes left over")
				if d := ref.Diff(g, w); d != "" {
					return fail("descriptor %d: %s", i, d)
				}
			} else if g[0] != w[0] {
				return fail("descriptor %d: got %s, want %s", i, g[0], w[0])
			}
			if e != ref.OK {
				bad = true
				o.Label("descriptor unsound: " + r.Sec.Descs[i].Kind + " " + e)
			}
		}
	}
	if r.Err == ref.BadCRC {
		o.Label("only the CRC is wrong")
	}
	return nil
}

// damagedLoop draws a section and spoils the inside of some of its
// descriptors, each keeping its declared length.
func damagedLoop(t *rapid.T) []byte {
	s := gen.Section(t, gen.Cfg{Encrypt: true, NoBulk: true})
	for len(s.Descs) < 2 {
		s.Descs = append(s.Descs, gen.Descriptor(t, gen.Cfg{NoBulk: true}, 120))
	}
	var loop []byte
	for i := range s.Descs {
		d := s.Descs[i].Encode(ref.EncOpts{})
		if gen.P(t, 45) {
			switch gen.N(t, 0, 3) {
			case 0: // cut: fewer bytes than its content needs
				n := gen.N(t, 1, max(1, len(d)-6))
				if len(d)-n >= 6 {
					d = d[:len(d)-n]
				}
			case 1: // bytes too many
				d = append(d, gen.Bytes(t, 1, min(6, 257-len(d)+1))...)
			case 2: // a byte inside says something else
				if len(d) > 6 {
					d[gen.N(t, 6, len(d)-1)] = byte(gen.N(t, 0, 255))
				}
			case 3: // its tag says something else
				d[0] = byte(gen.N(t, 0, 4))
			}
			if len(d) > 257 {
				d = d[:257]
			}
			d[1] = byte(len(d) - 2)
		}
		loop = append(loop, d...)
	}
	b := s.Canonical()
	l := layoutOf(s)
	end := l.loopAt
	if n := len(l.descs); n > 0 {
		end = l.descs[n-1] + len(s.Descs[n-1].Encode(ref.EncOpts{}))
	}
	out := append([]byte{}, b[:l.loopLenAt]...)
	out = append(out, byte(len(loop)>>8), byte(len(loop)))
	out = append(out, loop...)
	out = append(out, b[end:]...)
	if gen.P(t, 60) {
		return ref.FixCRC(out)
	}
	return out
}

func init() {
	core.Register(&core.Prop{
		ID: "P12",
		Rule: "signals are damaged in chosen descriptors (cut, padded, a byte or the tag changed, the others left sound), in the command, in the " +
			"tail, or anywhere; what the reference decoder finds readable must be in the section returned, in its place; non-trivial: the " +
			"header is complete and the command is sound or only has bytes left over",
		Subs: []*core.Sub{
			core.New("descriptors", 90000, 1500000, func(t *rapid.T) dataCase { return dataCase{damagedLoop(t)} }, checkPartial),
			core.New("anything", 90000, 1500000, func(t *rapid.T) dataCase { return dataCase{anyBytes(t)} }, checkPartial),
			core.Fuzz("coverage-guided", 2000000, 60, signalSeed, fuzzSignal, checkPartial),
			core.New("cut", 9000, 150000, genSection(gen.Cfg{Encrypt: true, MaxBytes: 300}), func(c secCase, o *core.Obs) error {
				b := c.S.Canonical()
				o.NonTrivial()
				o.Evals(len(b))
				for n := range b {
					if err := checkPartial(dataCase{b[:n]}, &core.Obs{}); err != nil {
						return fail("cut to %d of %d bytes: %v", n, len(b), err)
					}
				}
				return nil
			}),
			core.New("text", 12000, 200000, func(t *rapid.T) dataCase { return dataCase{damagedLoop(t)} }, func(c dataCase, o *core.Obs) error {
				// the convenience functions return the same partial section
				o.NonTrivial()
				sis, err := decode(c.Data)
				for name, f := range textDecoders {
					g, gerr := f(c.Data)
					if g == nil {
						return fail("%s: nil section", name)
					}
					if errClass(gerr) != errClass(err) {
						return fail("%s: %v, want %v", name, gerr, err)
					}
					if d := ref.Diff(api.Lines(g), api.Lines(sis)); d != "" {
						return fail("%s: %s", name, d)
					}
				}
				return nil
			}),
		},
	})
}

var _ = fmt.Sprint
