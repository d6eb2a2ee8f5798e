package checks

import (
	"pgregory.net/rapid"

	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// checkVerdict compares accept, reject and error class with the reference.
func checkVerdict(c dataCase, o *core.Obs) error {
	sis, err := decode(c.Data)
	r := ref.Decode(c.Data)
	got := errClass(err)
	o.Label("reference says " + map[bool]string{true: "valid", false: r.Err}[r.Err == ref.OK])
	if len(c.Data) >= 14 {
		o.NonTrivial()
	}
	if r.Err == ref.OK {
		if got != ref.OK {
			return fail("a sound section is rejected (%v): %s", err, c.Data)
		}
		if r.Loose {
			o.Label("valid, meaning not fixed")
			return nil
		}
		if err := api.Cmp(sis, r.Sec); err != nil {
			return fail("decoded wrongly: %v\n%s", err, c.Data)
		}
		return nil
	}
	if got == ref.OK {
		return fail("an unsound section (%s) is accepted: %s", r.Err, c.Data)
	}
	allowed := map[string]bool{}
	if !r.CmdErr {
		for i, e := range r.DescErr {
			if e != ref.OK {
				allowed[e] = true
				if r.DescOver[i] {
					allowed[ref.Overflow], allowed[ref.Underflow] = true, true
				}
				o.Label("descriptor at fault: " + r.Sec.Descs[i].Kind)
			}
		}
	} else {
		o.Label("command at fault")
	}
	if len(allowed) == 0 {
		allowed[r.Err] = true
	}
	if !allowed[got] {
		return fail("rejected as %q (%v), want %v: %s", got, err, allowed, c.Data)
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID: "P11",
		Rule: "valid sections are damaged: length, count, type and flag fields that lie by little or much, dropped, inserted and flipped bytes, " +
			"cuts, several at once, with the CRC mostly repaired so that only the structure can give the damage away; the verdict and " +
			"the error class are compared with the reference decoder's; non-trivial: the header is complete",
		Assumptions: []string{"when several descriptors are at fault any of their error classes is accepted",
			"a nested MID upid that is cut short is tolerated, as an existing test requires"},
		Subs: []*core.Sub{
			core.New("verdict", 480000, 4800000, func(t *rapid.T) dataCase { return dataCase{anyBytes(t)} }, checkVerdict),
			core.Fuzz("coverage-guided", 3000000, 60, signalSeed, fuzzSignal, checkVerdict),
			core.New("cut", 32000, 320000, func(t *rapid.T) secCase {
				return secCase{gen.Section(t, gen.Cfg{Encrypt: true, WireUPID: true, MaxBytes: 300})}
			}, func(c secCase, o *core.Obs) error {
				b := c.S.Canonical()
				o.NonTrivial()
				o.Evals(2 * len(b))
				for n := range b {
					if err := checkVerdict(dataCase{b[:n]}, &core.Obs{}); err != nil {
						return fail("cut to %d of %d bytes: %v", n, len(b), err)
					}
					if err := checkVerdict(dataCase{ref.FixCRC(b[:n])}, &core.Obs{}); err != nil {
						return fail("cut to %d of %d bytes, CRC put right: %v", n, len(b), err)
					}
				}
				return nil
			}),
		},
	})
}
