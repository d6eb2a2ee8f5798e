// Package core runs property checks: generated cases from rapid or complete
// enumerations, in worker processes, with shrinking, replay files and
// evidence.
package core

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verifharness/ref"
)

// Obs collects what a case exercised.
type Obs struct {
	labels     map[string]bool
	nontrivial bool
	extra      int64
}

// Label notes that the case belongs to a class.
func (o *Obs) Label(l string) {
	if o.labels == nil {
		o.labels = map[string]bool{}
	}
	o.labels[l] = true
}

// LabelIf labels conditionally.
func (o *Obs) LabelIf(c bool, l string) {
	if c {
		o.Label(l)
	}
}

// NonTrivial marks the case as non-trivial.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Evals counts extra evaluations performed within the case (sub-inputs tried).
func (o *Obs) Evals(n int) { o.extra += int64(n) }

// Sub is one sub-check of a property.
type Sub struct {
	Name     string
	Quick    int // cases in the quick tier (all shards together)
	Thorough int
	MinShard int // smallest number of cases worth a process of its own
	run      func(w *worker)
	replay   func(raw []byte, o *Obs) error
	fixed    int
	fuzz     *fuzzer
	Exhaust  bool
}

// Prop is a property.
type Prop struct {
	ID          string
	Title       string
	Rule        string
	Technique   string
	Assumptions []string
	Subs        []*Sub
	// Setup, if set, is run by the parent before the workers; it may put
	// things in the scratch directory.
	Setup func(scratch string) error
	// Procs is GOMAXPROCS of the workers; default 2.
	Procs int
	// CaseCPU is how much CPU time a case may use; default hangCPU.
	CaseCPU time.Duration
	// Boost multiplies the generated cases, twice in the thorough tier; default 4.
	Boost float64
	// Smaller, if set, proposes smaller variants of a case that ends the
	// process, which rapid cannot shrink.
	Smaller func(sub string, raw []byte) [][]byte
}

func (p *Prop) boost() float64 {
	if p.Boost == 0 {
		return 4
	}
	return p.Boost
}

func (p *Prop) caseCPU() time.Duration {
	if p.CaseCPU == 0 {
		return hangCPU
	}
	return p.CaseCPU
}

func (p *Prop) procs() string {
	if p.Procs == 0 {
		return "2"
	}
	return strconv.Itoa(p.Procs)
}

var props = map[string]*Prop{}
var order []string

// Register adds a property.
func Register(p *Prop) {
	props[p.ID] = p
	order = append(order, p.ID)
}

// call runs f and turns a panic into an error.
func call(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if r == ref.TooLong { // no case for the model, and none for the library
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return f()
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "scte35") || strings.Contains(l, "iobit") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 8 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// New makes a sub-check with generated cases.  fixed cases are run first.
func New[C any](name string, quick, thorough int, gen func(*rapid.T) C, prop func(C, *Obs) error, fixed ...C) *Sub {
	s := &Sub{Name: name, Quick: quick, Thorough: thorough, MinShard: 500, fixed: len(fixed)}
	s.replay = func(raw []byte, o *Obs) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return &HarnessError{fmt.Sprintf("replay: %v", err)}
		}
		return call(func() error { return prop(c, o) })
	}
	s.run = func(w *worker) {
		one := func(c C) error {
			raw, err := json.Marshal(c)
			if err != nil {
				panic(&HarnessError{fmt.Sprintf("case of %s: %v", name, err)})
			}
			o := &Obs{}
			w.begin(raw)
			err = call(func() error { return prop(c, o) })
			w.end(raw, o, err)
			return err
		}
		if w.shard == 0 {
			for _, c := range fixed {
				if one(c) != nil {
					return
				}
			}
		}
		w.rapid(func(t *rapid.T) {
			if w.late() {
				return
			}
			if BeforeCase != nil {
				BeforeCase()
			}
			c := gen(t)
			if err := one(c); err != nil {
				t.Fatalf("property does not hold")
			}
		})
	}
	return s
}

// BeforeCase, if set, is run before each generated case.
var BeforeCase func()

// Enum makes a sub-check over a complete enumeration.  each must call yield
// for every case; the shards split them.
func Enum[C any](name string, quickTotal, thoroughTotal int, each func(thorough bool, yield func(C) bool), prop func(C, *Obs) error) *Sub {
	s := &Sub{Name: name, Quick: quickTotal, Thorough: thoroughTotal, MinShard: 20000, Exhaust: true}
	s.replay = func(raw []byte, o *Obs) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return &HarnessError{fmt.Sprintf("replay: %v", err)}
		}
		return call(func() error { return prop(c, o) })
	}
	s.run = func(w *worker) {
		i := -1
		each(w.tier == "thorough", func(c C) bool {
			i++
			if i%w.shards != w.shard {
				return true
			}
			if w.late() {
				return false
			}
			raw, err := json.Marshal(c)
			if err != nil {
				panic(&HarnessError{err.Error()})
			}
			o := &Obs{}
			w.begin(raw)
			err = call(func() error { return prop(c, o) })
			w.end(raw, o, err)
			return err == nil
		})
	}
	return s
}

// HarnessError is a fault of the harness, not of the code under test.
type HarnessError struct{ Msg string }

func (e *HarnessError) Error() string { return "harness: " + e.Msg }
