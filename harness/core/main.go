package core

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	_ "time/tzdata"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// Replay is what a replay file holds.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case,omitempty"`
	Error    string          `json:"error"`
	// Isolated: the case fails on its own in a fresh process.  Otherwise the
	// whole history (this shard of this seed) is needed.
	Isolated bool   `json:"isolated"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Shard    int    `json:"shard"`
	Shards   int    `json:"shards"`
	N        int    `json:"n"`
}

type job struct {
	sub    *Sub
	shard  int
	shards int
	n      int
}

// budget is the time after which a run stops generating, whatever is left; on
// a machine that is not overloaded a run takes a fraction of it.
var budget = map[string]time.Duration{"quick": 7 * time.Minute, "thorough": 3 * time.Hour}

// Scratch is the scratch directory of this run; workers learn it from the
// environment.
func Scratch() string { return os.Getenv("VERIF_SCRATCH") }

// Main is the entry point of the harness binary.
func Main() {
	testing.Init()
	mode := "run"
	if len(os.Args) > 1 {
		mode = os.Args[1]
	}
	args := os.Args[min(2, len(os.Args)):]
	must(flag.CommandLine.Parse(nil))
	switch mode {
	case "run":
		fs := flag.NewFlagSet("run", flag.ExitOnError)
		prop := fs.String("property", "", "")
		tier := fs.String("tier", "quick", "")
		seed := fs.Int64("seed", 1, "")
		verif := fs.String("verif", "", "")
		scratch := fs.String("scratch", "", "")
		scale := fs.Float64("scale", 1, "multiply the case counts")
		_ = fs.Parse(args)
		os.Exit(runProperty(*prop, *tier, *seed, *verif, *scratch, *scale))
	case "worker":
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		prop := fs.String("property", "", "")
		sub := fs.String("sub", "", "")
		tier := fs.String("tier", "", "")
		seed := fs.Int64("seed", 1, "")
		shard := fs.Int("shard", 0, "")
		shards := fs.Int("shards", 1, "")
		n := fs.Int("n", 0, "")
		base := fs.String("base", "", "")
		limit := fs.Duration("limit", 0, "")
		_ = fs.Parse(args)
		p, s := find(*prop, *sub)
		w := &worker{prop: p, sub: s, tier: *tier, shard: *shard, shards: *shards, n: *n, base: *base,
			dir: Scratch(), seed: seedFor(*seed, *prop, *sub, strconv.Itoa(*shard))}
		if *limit > 0 {
			w.stopAt = time.Now().Add(*limit)
		}
		w.main()
	case "case":
		// run one case read from standard input; exit 0 if it holds, 1 if not
		raw, err := io.ReadAll(os.Stdin)
		must(err)
		scte35.Logger = log.New(io.Discard, "", 0)
		p, s := find(args[0], args[1])
		var start atomic.Int64
		watchdog(&start, p.caseCPU())
		start.Store(1)
		if err := s.replay(raw, &Obs{}); err != nil {
			if he, ok := err.(*HarnessError); ok {
				fmt.Println(he)
				os.Exit(2)
			}
			fmt.Println(err)
			os.Exit(1)
		}
		os.Exit(0)
	case "partner":
		bePartner(runtime.GOARCH)
	case "replay":
		os.Exit(replayFile(args[0], args[1]))
	case "list":
		for _, id := range order {
			p := props[id]
			for _, s := range p.Subs {
				fmt.Printf("%s %s quick=%d thorough=%d\n", id, s.Name, s.Quick, s.Thorough)
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(2)
	}
}

func find(id, sub string) (*Prop, *Sub) {
	p := props[id]
	if p == nil {
		panic(&HarnessError{"no property " + id})
	}
	for _, s := range p.Subs {
		if s.Name == sub {
			return p, s
		}
	}
	panic(&HarnessError{"no sub-check " + sub + " in " + id})
}

func self() string {
	e, err := os.Executable()
	must(err)
	return e
}

// caseProcess runs one case in a fresh process.  It reports whether the case
// fails there, with what message, and whether the process could not tell.
func caseProcess(ctx context.Context, prop, sub string, raw []byte) (fails bool, msg string, harness bool) {
	cmd := exec.CommandContext(ctx, self(), "case", prop, sub)
	cmd.Stdin = bytes.NewReader(raw)
	var out, errb tail
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 atexit_sleep_ms=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	if err == nil {
		return false, "", false
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return false, err.Error(), true
	}
	switch ee.ExitCode() {
	case 1:
		return true, strings.TrimSpace(out.String()), false
	case exitHang, exitMemory:
		return true, strings.TrimSpace(errb.String()), false
	case 2:
		if strings.HasPrefix(out.String(), "harness:") || strings.Contains(errb.String(), "harness:") {
			return false, out.String() + errb.String(), true
		}
		return true, "the process died: " + firstLines(errb.String(), 12), false
	}
	return true, fmt.Sprintf("the process died (%v): %s", err, firstLines(errb.String(), 12)), false
}

// Fresh runs one case of a sub-check in a process of its own.
func Fresh(prop, sub string, c any) error {
	raw, err := json.Marshal(c)
	must(err)
	fails, msg, harness := caseProcess(context.Background(), prop, sub, raw)
	if harness {
		return &HarnessError{msg}
	}
	if fails {
		return errors.New("in a fresh process: " + msg)
	}
	return nil
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// tail keeps the first 64 kB written to it.
type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if room := 1<<16 - t.b.Len(); room > 0 {
		t.b.Write(p[:min(room, len(p))])
	}
	return len(p), nil
}
func (t *tail) String() string { return t.b.String() }

type outcome struct {
	rep     *report
	seen    []uint64
	viol    *Replay
	problem string
}

func runJob(ctx context.Context, p *Prop, j job, tier string, seed int64, scratch string, limit time.Duration, again bool) outcome {
	base := fmt.Sprintf("%s-%s-%d", p.ID, j.sub.Name, j.shard)
	if again {
		base += "-again"
	}
	cmd := exec.CommandContext(ctx, self(), "worker", "-property", p.ID, "-sub", j.sub.Name, "-tier", tier,
		"-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(j.shard), "-shards", fmt.Sprint(j.shards),
		"-n", fmt.Sprint(j.n), "-base", base, "-limit", limit.String())
	var errb tail
	cmd.Stderr = &errb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS="+p.procs(), "GORACE=halt_on_error=1 atexit_sleep_ms=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	if ctx.Err() != nil {
		return outcome{}
	}
	mk := func(raw []byte, msg string, isolated bool) *Replay {
		return &Replay{Property: p.ID, Sub: j.sub.Name, Case: raw, Error: msg, Isolated: isolated, Tier: tier, Seed: seed,
			Shard: j.shard, Shards: j.shards, N: j.n}
	}
	if err != nil {
		// the worker died: was it the case it was running?
		if strings.Contains(errb.String(), "harness:") {
			return outcome{problem: firstLines(errb.String(), 20)}
		}
		cur, rerr := os.ReadFile(filepath.Join(scratch, base+".cur"))
		if rerr != nil || len(cur) < 8 {
			return outcome{problem: fmt.Sprintf("worker %s: %v\n%s", base, err, firstLines(errb.String(), 20))}
		}
		n := binary.LittleEndian.Uint64(cur)
		raw := append([]byte{}, cur[8:8+n]...)
		fails, msg, _ := caseProcess(ctx, p.ID, j.sub.Name, raw)
		if ctx.Err() != nil {
			return outcome{}
		}
		if fails {
			raw, msg = shrinkDead(ctx, p, j.sub.Name, raw, msg)
			return outcome{viol: mk(raw, msg, true)}
		}
		var ee *exec.ExitError
		if again || errors.As(err, &ee) && ee.ExitCode() == exitRace {
			return outcome{viol: mk(raw, "the process died: "+firstLines(errb.String(), 12), false)}
		}
		o := runJob(ctx, p, j, tier, seed, scratch, limit, true)
		if o.viol == nil && o.problem == "" && ctx.Err() == nil {
			o.problem = fmt.Sprintf("worker %s died once (%v) and not again\n%s", base, err, firstLines(errb.String(), 20))
		}
		return o
	}
	b, err := os.ReadFile(filepath.Join(scratch, base+".json"))
	if err != nil {
		return outcome{problem: fmt.Sprintf("worker %s: %v", base, err)}
	}
	o := outcome{rep: &report{}}
	if err := json.Unmarshal(b, o.rep); err != nil {
		return outcome{problem: fmt.Sprintf("worker %s: %v", base, err)}
	}
	sb, err := os.ReadFile(filepath.Join(scratch, base+".seen"))
	if err != nil {
		return outcome{problem: fmt.Sprintf("worker %s: %v", base, err)}
	}
	for i := 0; i+8 <= len(sb); i += 8 {
		o.seen = append(o.seen, binary.LittleEndian.Uint64(sb[i:]))
	}
	if o.rep.Problem != "" {
		o.problem = fmt.Sprintf("worker %s: %s", base, o.rep.Problem)
	}
	if o.rep.FailCase != nil {
		fails, msg, harness := caseProcess(ctx, p.ID, j.sub.Name, o.rep.FailCase)
		if ctx.Err() != nil {
			return outcome{}
		}
		switch {
		case harness:
			o.problem = msg
		case fails:
			o.viol = mk(o.rep.FailCase, msg, true)
		default:
			o.viol = mk(o.rep.FailCase, o.rep.FailErr, false)
		}
	}
	return o
}

// shrinkDead shrinks a case that ends the process.
func shrinkDead(ctx context.Context, p *Prop, sub string, raw []byte, msg string) ([]byte, string) {
	if p.Smaller == nil {
		return raw, msg
	}
	end := time.Now().Add(30 * time.Second)
again:
	for _, k := range p.Smaller(sub, raw) {
		if time.Now().After(end) || ctx.Err() != nil {
			break
		}
		if fails, m, harness := caseProcess(ctx, p.ID, sub, k); fails && !harness {
			raw, msg = k, m
			goto again
		}
	}
	return raw, msg
}

// Zone is the local time zone everything runs in: what is not UTC, is not a
// whole number of hours from it and has summer time tells a moment from the
// hands of a clock.
var Zone = func() *time.Location {
	z, err := time.LoadLocation(ZoneName)
	must(err)
	time.Local = z
	return z
}()

// ZoneName is the name of Zone, for other processes.
const ZoneName = "America/St_Johns"

func runProperty(id, tier string, seed int64, verif, scratch string, scale float64) int {
	began := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", id)
		return 2
	}
	must(os.Setenv("VERIF_SCRATCH", scratch))
	must(os.Setenv("VERIF_TIER", tier))
	if p.Setup != nil {
		if err := p.Setup(scratch); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return 2
		}
	}
	known, err := readKnown(filepath.Join(verif, "known-findings.txt"), id)
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	for _, k := range known {
		fails, msg, harness := caseProcess(ctx, id, k.sub, []byte(k.raw))
		switch {
		case harness:
			fmt.Fprintln(os.Stderr, "known finding:", msg)
			return 2
		case fails:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
		default:
			fmt.Printf("note: the known finding %q of %s no longer fails\n", k.what, id)
		}
	}

	ncpu := runtime.NumCPU()
	var jobs []job
	for _, s := range p.Subs {
		if s.fuzz != nil {
			continue
		}
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		if !s.Exhaust {
			n = int(float64(n) * p.boost())
			if tier == "thorough" {
				n *= 2
			}
		}
		n = int(float64(n) * scale)
		shards := n / s.MinShard
		if shards < 1 {
			shards = 1
		}
		limit := ncpu
		if tier == "thorough" {
			limit = 4 * ncpu
		}
		if shards > limit {
			shards = limit
		}
		for i := 0; i < shards; i++ {
			m := n / shards
			if i < n%shards {
				m++
			}
			jobs = append(jobs, job{s, i, shards, m})
		}
	}
	stopAt := began.Add(budget[tier])
	results := make([]outcome, len(jobs))
	next := make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < ncpu; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			// Pdeathsig is tied to the thread that starts the process
			runtime.LockOSThread()
			for k := range next {
				rounds := (len(jobs) - k + ncpu - 1) / ncpu
				limit := max(time.Until(stopAt)/time.Duration(rounds), time.Second)
				results[k] = runJob(ctx, p, jobs[k], tier, seed, scratch, limit, false)
				if results[k].viol != nil {
					cancel()
				}
			}
		}()
	}
feed:
	for k := range jobs {
		select {
		case next <- k:
		case <-ctx.Done():
			break feed
		}
	}
	close(next)
	wg.Wait()

	// merge
	type subStat struct {
		Cases      int64            `json:"cases"`
		Evals      int64            `json:"evaluations"`
		NonTrivial int64            `json:"distinct_nontrivial"`
		Fixed      int              `json:"fixed_cases,omitempty"`
		Exhaustive bool             `json:"exhaustive,omitempty"`
		MaxCPU     float64          `json:"slowest_case_cpu_s"`
		Late       int              `json:"shards_stopped_by_the_clock,omitempty"`
		Labels     map[string]int64 `json:"classes"`
	}
	stats := map[string]*subStat{}
	seen := map[string]map[uint64]struct{}{}
	var samples []sample
	var viol *Replay
	var problems []string
	for k, o := range results {
		s := jobs[k].sub
		if o.viol != nil && viol == nil {
			viol = o.viol
		}
		if o.problem != "" {
			problems = append(problems, o.problem)
		}
		if o.rep == nil {
			continue
		}
		st := stats[s.Name]
		if st == nil {
			st = &subStat{Labels: map[string]int64{}, Fixed: s.fixed, Exhaustive: s.Exhaust}
			stats[s.Name] = st
			seen[s.Name] = map[uint64]struct{}{}
		}
		st.Cases += o.rep.Cases
		st.Evals += o.rep.Evals
		st.MaxCPU = max(st.MaxCPU, o.rep.MaxCPU)
		if o.rep.Late {
			st.Late++
			st.Exhaustive = false
		}
		for l, n := range o.rep.Labels {
			st.Labels[l] += n
		}
		for _, h := range o.seen {
			seen[s.Name][h] = struct{}{}
		}
		samples = append(samples, o.rep.Samples...)
	}
	if tier == "thorough" && viol == nil && len(problems) == 0 {
		execs, v, problem := runFuzz(ctx, p, scratch, scale)
		viol = v
		if problem != "" {
			problems = append(problems, problem)
		}
		for n, e := range execs {
			stats[n] = &subStat{Cases: e[0], Evals: e[0], Labels: map[string]int64{"inputs that reached new code": e[1]}}
		}
	}
	var evals, nontrivial, cases int64
	for n, st := range stats {
		if seen[n] == nil { // a fuzzing campaign
			st.NonTrivial = st.Labels["inputs that reached new code"]
		} else {
			st.NonTrivial = int64(len(seen[n]))
		}
		cases += st.Cases
		evals += st.Evals
		nontrivial += st.NonTrivial
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	var knownNames []string
	for _, k := range known {
		knownNames = append(knownNames, k.what)
	}
	violations := 0
	if viol != nil {
		violations = 1
	}
	cov := map[string]any{
		"evaluations": evals, "cases": cases, "distinct_nontrivial": nontrivial, "rule": p.Rule,
		"samples": samples, "subchecks": stats,
	}
	if len(knownNames) > 0 {
		cov["known_findings_excluded_by_construction"] = knownNames
	}
	if viol != nil {
		cov["violation"] = map[string]any{"sub": viol.Sub, "case": string(viol.Case), "error": viol.Error}
		if len(samples) == 0 {
			cov["samples"] = []sample{{viol.Sub, string(viol.Case)}}
		}
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": p.Assumptions, "violations": violations, "wall_s": time.Since(began).Seconds()}
	eb, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verif, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(eb, '\n'), 0o644))

	names := make([]string, 0, len(stats))
	for n := range stats {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		st := stats[n]
		fmt.Printf("%s %s: %d cases, %d evaluations, %d distinct non-trivial, slowest %.2f s\n", id, n, st.Cases, st.Evals, st.NonTrivial, st.MaxCPU)
		if st.Late > 0 {
			fmt.Printf("%s %s: the time was up before all cases were run\n", id, n)
		}
	}
	if viol != nil {
		dir := filepath.Join(verif, "replays")
		must(os.MkdirAll(dir, 0o755))
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, viol.Sub, seed))
		rb, err := json.MarshalIndent(viol, "", " ")
		must(err)
		must(os.WriteFile(path, append(rb, '\n'), 0o644))
		c := string(viol.Case)
		if len(c) > 3000 {
			c = c[:3000] + "..."
		}
		fmt.Printf("sub-check %s fails\ncase: %s\n%s\n", viol.Sub, c, viol.Error)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if len(problems) > 0 {
		for _, s := range problems {
			fmt.Fprintln(os.Stderr, "problem:", s)
		}
		return 2
	}
	fmt.Printf("%s holds on everything explored (%d evaluations, %.1f s)\n", id, evals, time.Since(began).Seconds())
	return 0
}

type knownFinding struct{ sub, raw, what string }

// readKnown reads the known findings of a property: lines
//
//	known: property=<id> sub=<sub-check> case=<json> what=<text>
//
// Lines that start with "fixed:" suppress nothing.
func readKnown(path, id string) ([]knownFinding, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		rest, ok := strings.CutPrefix(l, "known: property="+id+" sub=")
		if !ok {
			continue
		}
		sub, rest, ok1 := strings.Cut(rest, " case=")
		raw, what, ok2 := strings.Cut(rest, " what=")
		if !ok1 || !ok2 {
			return nil, fmt.Errorf("bad line %q", l)
		}
		out = append(out, knownFinding{sub, raw, what})
	}
	return out, sc.Err()
}

func replayFile(path, scratch string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	must(os.Setenv("VERIF_SCRATCH", scratch))
	p, s := find(r.Property, r.Sub)
	if p.Setup != nil {
		if err := p.Setup(scratch); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return 2
		}
	}
	ctx := context.Background()
	fails, msg, harness := caseProcess(ctx, r.Property, r.Sub, r.Case)
	if harness {
		fmt.Fprintln(os.Stderr, msg)
		return 2
	}
	if !fails && !r.Isolated {
		o := runJob(ctx, p, job{s, r.Shard, r.Shards, r.N}, r.Tier, r.Seed, scratch, 0, false)
		if o.problem != "" {
			fmt.Fprintln(os.Stderr, o.problem)
			return 2
		}
		if o.viol != nil {
			fails, msg = true, o.viol.Error
		}
	}
	if fails {
		fmt.Printf("case: %s\n%s\nVIOLATION property=%s replay=%s\n", r.Case, msg, r.Property, path)
		return 1
	}
	fmt.Println("the case holds")
	return 0
}
