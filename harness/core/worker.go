package core

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"
)

const (
	exitHang   = 40
	exitMemory = 41
	exitRace   = 66 // the race detector's

	hangCPU   = 20 * time.Second  // of CPU time, for one case that takes milliseconds
	hangWall  = 100 * time.Second // waiting for something that does not come
	heapLimit = 3 << 30
)

type report struct {
	Cases      int64            `json:"cases"`
	Evals      int64            `json:"evals"`
	NonTrivial int64            `json:"nontrivial"`
	Labels     map[string]int64 `json:"labels"`
	Samples    []sample         `json:"samples"`
	FailCase   json.RawMessage  `json:"fail_case,omitempty"`
	FailErr    string           `json:"fail_err,omitempty"`
	Problem    string           `json:"problem,omitempty"`
	MaxCPU     float64          `json:"max_cpu_s"` // of a case
	Late       bool             `json:"late,omitempty"`
}

type sample struct {
	Sub  string `json:"sub"`
	Case string `json:"case"`
}

type worker struct {
	prop   *Prop
	sub    *Sub
	tier   string
	shard  int
	shards int
	n      int
	seed   uint64
	dir    string // scratch
	base   string // file name base

	rep    report
	seen   map[uint64]struct{}
	cur    *os.File
	curLen int
	start  atomic.Int64 // number of the running case; 0 when idle
	cpu0   int64
	stopAt time.Time // when to stop generating; zero: never

	lastFail []byte
	lastErr  error
	firstF   []byte
	firstE   error
}

func cpuNow() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func heapNow() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	if s[0].Value.Kind() == metrics.KindUint64 {
		return s[0].Value.Uint64()
	}
	return 0
}

func watchdog(start *atomic.Int64, limit time.Duration) {
	go func() {
		var last, lastCPU int64
		var lastWall time.Time
		for {
			time.Sleep(50 * time.Millisecond)
			s := start.Load()
			if s == 0 {
				last = 0
				continue
			}
			if heapNow() > heapLimit {
				fmt.Fprintln(os.Stderr, "watchdog: the case uses more than 3 GB of memory")
				os.Exit(exitMemory)
			}
			if s != last {
				last, lastCPU, lastWall = s, cpuNow(), time.Now()
				continue
			}
			if time.Duration(cpuNow()-lastCPU) > limit || time.Since(lastWall) > hangWall {
				buf := make([]byte, 1<<14)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "watchdog: the case does not finish (more than %v of CPU time or %v)\n%s\n", limit, hangWall, buf)
				os.Exit(exitHang)
			}
		}
	}()
}

var caseNo atomic.Int64

func (w *worker) begin(raw []byte) {
	var hdr [8]byte
	binary.LittleEndian.PutUint64(hdr[:], uint64(len(raw)))
	_, _ = w.cur.WriteAt(append(hdr[:], raw...), 0)
	w.start.Store(caseNo.Add(1))
	w.cpu0 = cpuNow()
}

// late says whether the time for this worker is used up.  Some case is always
// run, and a failure is shrunk all the same.
func (w *worker) late() bool {
	if w.stopAt.IsZero() || w.rep.Cases == 0 || w.lastFail != nil || time.Now().Before(w.stopAt) {
		return false
	}
	w.rep.Late = true
	return true
}

func (w *worker) end(raw []byte, o *Obs, err error) {
	w.start.Store(0)
	if d := os.Getenv("VERIF_SLOW"); d != "" && time.Duration(cpuNow()-w.cpu0) > time.Second {
		_ = os.WriteFile(fmt.Sprintf("%s/%s-%s-%d-%d", d, w.prop.ID, w.sub.Name, w.shard, time.Now().UnixNano()), raw, 0o644)
	}
	w.rep.MaxCPU = max(w.rep.MaxCPU, time.Duration(cpuNow()-w.cpu0).Seconds())
	var he *HarnessError
	if errors.As(err, &he) {
		panic(he)
	}
	if err != nil {
		if w.firstF == nil {
			w.firstF, w.firstE = append([]byte{}, raw...), err
		}
		w.lastFail, w.lastErr = append([]byte{}, raw...), err
		return
	}
	if w.lastFail != nil {
		return // shrinking: not part of the exploration
	}
	w.rep.Cases++
	w.rep.Evals += 1 + o.extra
	if o.nontrivial {
		h := fnv.New64a()
		_, _ = h.Write([]byte(w.sub.Name))
		_, _ = h.Write(raw)
		k := h.Sum64()
		if _, ok := w.seen[k]; !ok {
			w.seen[k] = struct{}{}
			w.rep.NonTrivial++
			n := w.rep.NonTrivial
			if w.shard == 0 && (n == 1 || n == 10 || n == 100) {
				s := string(raw)
				if len(s) > 700 {
					s = s[:700] + "..."
				}
				w.rep.Samples = append(w.rep.Samples, sample{w.sub.Name, s})
			}
		}
	}
	for l := range o.labels {
		w.rep.Labels[l]++
	}
}

// tb is the testing interface handed to rapid.
type tb struct {
	failed bool
	msg    string
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(string, ...any)       {}
func (t *tb) Log(...any)                {}
func (t *tb) Skipf(string, ...any)      { runtime.Goexit() }
func (t *tb) Skip(...any)               { runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.msg = fmt.Sprintf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.msg = fmt.Sprint(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func (w *worker) rapid(f func(*rapid.T)) {
	if w.n <= 0 {
		return
	}
	must(flag.Set("rapid.checks", fmt.Sprint(w.n)))
	must(flag.Set("rapid.seed", fmt.Sprint(w.seed)))
	t := &tb{}
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		rapid.Check(t, f)
	}()
	if r := <-done; r != nil {
		panic(r)
	}
	if t.failed && w.lastFail == nil {
		w.rep.Problem = t.msg
	}
}

func must(err error) {
	if err != nil {
		panic(&HarnessError{err.Error()})
	}
}

// seedFor derives a non-zero seed.
func seedFor(seed int64, parts ...string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", seed)
	for _, p := range parts {
		fmt.Fprintf(h, "/%s", p)
	}
	s := h.Sum64() &^ (1 << 63)
	if s == 0 {
		s = 1
	}
	return s
}

func (w *worker) main() {
	scte35.Logger = log.New(io.Discard, "", 0)
	must(os.Chdir(w.dir))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "15s"))
	f, err := os.Create(filepath.Join(w.dir, w.base+".cur"))
	must(err)
	w.cur = f
	w.seen = map[uint64]struct{}{}
	w.rep.Labels = map[string]int64{}
	watchdog(&w.start, w.prop.caseCPU())
	w.sub.run(w)
	if w.lastFail != nil {
		w.rep.FailCase, w.rep.FailErr = w.lastFail, w.lastErr.Error()
	}
	if w.rep.Problem == "" && w.rep.FailCase == nil && w.rep.Cases == 0 && w.n > 0 {
		w.rep.Problem = "no case was run"
	}
	hashes := make([]byte, 0, 8*len(w.seen))
	for k := range w.seen {
		hashes = binary.LittleEndian.AppendUint64(hashes, k)
	}
	must(os.WriteFile(filepath.Join(w.dir, w.base+".seen"), hashes, 0o644))
	out, err := json.Marshal(w.rep)
	must(err)
	must(os.WriteFile(filepath.Join(w.dir, w.base+".json"), out, 0o644))
}
