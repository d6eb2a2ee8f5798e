package core

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// Coverage-guided fuzzing, in the thorough tier only: the native Go fuzzer
// mutates byte strings, starting from generated ones, in a test binary built
// with coverage instrumentation; the oracle is the one of the property.  The
// fuzzer cannot be pinned by a seed, so the bytes that fail become an ordinary
// case, which is run again in a fresh process before it counts.

const fuzzWall = 150 * time.Second // a campaign that takes longer is cut off, which decides nothing

type fuzzer struct {
	seeds func(i int) []byte
	nseed int
	mk    func(data []byte) json.RawMessage
	prop  func(data []byte) error
}

// Fuzz makes a sub-check that is a coverage-guided campaign.
func Fuzz[C any](name string, execs, nseed int, seeds func(i int) []byte, mk func([]byte) C, prop func(C, *Obs) error) *Sub {
	s := &Sub{Name: name, Thorough: execs, MinShard: 1 << 30}
	s.fuzz = &fuzzer{seeds: seeds, nseed: nseed,
		mk: func(b []byte) json.RawMessage {
			raw, err := json.Marshal(mk(b))
			must(err)
			return raw
		},
		prop: func(b []byte) error {
			c := mk(b)
			return call(func() error { return prop(c, &Obs{}) })
		},
	}
	s.replay = func(raw []byte, o *Obs) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return &HarnessError{fmt.Sprintf("replay: %v", err)}
		}
		return call(func() error { return prop(c, o) })
	}
	return s
}

// FuzzTarget is the body of the fuzz test; the environment says which.
func FuzzTarget(f *testing.F) {
	id, sub, ok := strings.Cut(os.Getenv("VERIF_FUZZ"), "/")
	if !ok {
		f.Skip("run by the harness only")
	}
	_, s := find(id, sub)
	for i := 0; i < s.fuzz.nseed; i++ {
		f.Add(s.fuzz.seeds(i))
	}
	f.Fuzz(func(t *testing.T, data []byte) {
		if len(data) > 1<<13 {
			return
		}
		if err := s.fuzz.prop(data); err != nil {
			t.Fatal(err)
		}
	})
}

var execsRE = regexp.MustCompile(`execs: (\d+).*?(?:new interesting: (\d+) \(total: (\d+)\))?\n`)

// runFuzz runs the campaigns of a property, one after another on all CPUs.
func runFuzz(ctx context.Context, p *Prop, scratch string, scale float64) (execs map[string][2]int64, viol *Replay, problem string) {
	execs = map[string][2]int64{}
	var subs []*Sub
	for _, s := range p.Subs {
		if s.fuzz != nil {
			subs = append(subs, s)
		}
	}
	if len(subs) == 0 {
		return execs, nil, ""
	}
	bin := filepath.Join(scratch, "fuzz.test")
	build := exec.CommandContext(ctx, "go", "test", "-c", "-fuzz=FuzzSub", "-vet=off", "-modfile="+os.Getenv("VERIF_MODFILE"), "-o", bin, "./fuzz")
	build.Dir = os.Getenv("VERIF_HARNESS")
	if out, err := build.CombinedOutput(); err != nil {
		return execs, nil, fmt.Sprintf("the fuzz targets do not build: %v\n%s", err, out)
	}
	for _, s := range subs {
		dir := filepath.Join(scratch, "fuzz-"+s.Name)
		must(os.MkdirAll(dir, 0o755))
		fctx, stop := context.WithTimeout(ctx, fuzzWall)
		n := int(float64(s.Thorough) * scale)
		cmd := exec.CommandContext(fctx, bin, "-test.run=^$", "-test.fuzz=^FuzzSub$", "-test.fuzzcachedir="+filepath.Join(dir, "corpus"),
			fmt.Sprintf("-test.fuzztime=%dx", n), "-test.fuzzminimizetime=20s", "-test.timeout=0")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VERIF_FUZZ="+p.ID+"/"+s.Name)
		// the workers of the fuzzer are ended with it
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.WaitDelay = 5 * time.Second
		var out lockedBuf
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		timeout := fctx.Err() != nil
		stop()
		var st [2]int64
		for _, m := range execsRE.FindAllStringSubmatch(out.b.String(), -1) {
			st[0], _ = strconv.ParseInt(m[1], 10, 64)
			if m[3] != "" {
				st[1], _ = strconv.ParseInt(m[3], 10, 64)
			}
		}
		execs[s.Name] = st
		files, _ := filepath.Glob(filepath.Join(dir, "testdata", "fuzz", "FuzzSub", "*"))
		for _, file := range files {
			b, rerr := os.ReadFile(file)
			must(rerr)
			data, perr := parseCorpus(b)
			if perr != nil {
				return execs, nil, perr.Error()
			}
			raw := s.fuzz.mk(data)
			if fails, msg, harness := caseProcess(ctx, p.ID, s.Name, raw); fails && !harness {
				return execs, &Replay{Property: p.ID, Sub: s.Name, Case: raw, Error: msg, Isolated: true, Tier: "thorough", Shards: 1}, ""
			}
			fmt.Printf("note: the fuzzer ended on an input that does not fail again: %s\n", firstLines(out.b.String(), 30))
		}
		if err != nil && !timeout && len(files) == 0 && ctx.Err() == nil {
			fmt.Printf("note: the fuzzer of %s ended early: %v\n%s\n", s.Name, err, firstLines(out.b.String(), 30))
		}
	}
	return execs, nil, ""
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<22 {
		l.b.Write(p)
	}
	return len(p), nil
}

// parseCorpus reads a corpus file with one []byte.
func parseCorpus(b []byte) ([]byte, error) {
	for _, l := range strings.Split(string(b), "\n") {
		if q, ok := strings.CutPrefix(l, "[]byte("); ok {
			s, err := strconv.Unquote(strings.TrimSuffix(q, ")"))
			return []byte(s), err
		}
	}
	return nil, errors.New("not a corpus file")
}
