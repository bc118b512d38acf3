package main

// Framework: properties, worker (one shard, in-process), driver (8 shards,
// merging, confirmation of failures, evidence), replay.

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what a case exercised.
type Obs struct {
	labels  map[string]int
	nontriv bool
}

func (o *Obs) Label(format string, a ...any) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	o.labels[format]++
}
func (o *Obs) NonTrivial() { o.nontriv = true }

// Prop is one property's check.
type Prop struct {
	ID       string
	Rule     string
	Gen      func(t *rapid.T) any
	New      func() any
	Check    func(c any, o *Obs) error
	Quick    int // generated cases per shard
	Thorough int
	// Enum enumerates a finite space of cases completely; shard k of n.
	Enum     func(tier string, k, n int, yield func(c any) bool)
	EnumDesc string
	Race     bool
	HeapMB   uint64 // runaway limit; default 1500
	CPUSec   float64
	Assume   []string
	// Init runs in each worker before any case.
	Init func() error
	// Known runs in the driver and returns KNOWN-FINDING texts that reproduce.
	Known func() ([]string, error)
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.HeapMB == 0 {
		p.HeapMB = 1500
	}
	if p.CPUSec == 0 {
		p.CPUSec = 40
	}
	props[p.ID] = p
}

// harnessError marks a failure of the machinery, not of the code under test.
type harnessError struct{ msg string }

func (h *harnessError) Error() string { return "harness: " + h.msg }
func bug(format string, a ...any) error {
	return &harnessError{fmt.Sprintf(format, a...)}
}

const repoPath = "github.com/TooManySugar/ll1parser/"

// runCheck evaluates one case; panics in the code under test are failures,
// panics elsewhere are harness errors.
func runCheck(p *Prop, c any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if strings.Contains(st, repoPath+"pkg") || strings.Contains(st, "panicked inside the library") {
				err = fmt.Errorf("panic: %v\n%s", r, clip(st, 3000))
			} else {
				err = bug("panic: %v\n%s", r, st)
			}
		}
	}()
	return p.Check(c, o)
}

// ------------------------------------------------------------------- worker

type Violation struct {
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
	Kind  string          `json:"kind"` // "oracle", "hang", "heap", "crash", "race"
	Shard int             `json:"shard"`
}

type WorkerResult struct {
	Evals    int               `json:"evals"`
	Enum     int               `json:"enum"`
	NonTriv  int               `json:"nontriv"`
	Labels   map[string]int    `json:"labels"`
	Samples  []json.RawMessage `json:"samples"`
	Viol     *Violation        `json:"viol"`
	Err      string            `json:"err"`
	HashFile string            `json:"hashfile"`
	Known    int               `json:"known"`
}

type tbErr struct{}

// silentTB lets rapid run outside `go test`.
type silentTB struct {
	failed atomic.Bool
	log    strings.Builder
	mu     sync.Mutex
}

func (s *silentTB) Helper()      {}
func (s *silentTB) Name() string { return "check" }
func (s *silentTB) Logf(f string, a ...any) {
	s.mu.Lock()
	fmt.Fprintf(&s.log, f+"\n", a...)
	s.mu.Unlock()
}
func (s *silentTB) Log(a ...any)              { s.Logf("%s", fmt.Sprint(a...)) }
func (s *silentTB) Skipf(f string, a ...any)  { s.Logf(f, a...); runtime.Goexit() }
func (s *silentTB) Skip(a ...any)             { runtime.Goexit() }
func (s *silentTB) SkipNow()                  { runtime.Goexit() }
func (s *silentTB) Errorf(f string, a ...any) { s.Logf(f, a...); s.Fail() }
func (s *silentTB) Error(a ...any)            { s.Log(a...); s.Fail() }
func (s *silentTB) Fatalf(f string, a ...any) { s.Logf(f, a...); s.FailNow() }
func (s *silentTB) Fatal(a ...any)            { s.Log(a...); s.FailNow() }
func (s *silentTB) FailNow()                  { s.Fail(); runtime.Goexit() }
func (s *silentTB) Fail()                     { s.failed.Store(true) }
func (s *silentTB) Failed() bool              { return s.failed.Load() }

type worker struct {
	p       *Prop
	res     WorkerResult
	hashes  map[uint64]struct{}
	journal *os.File
	out     string
	shard   int
	curJSON []byte
	mu      sync.Mutex
	caseNo  atomic.Int64
	frozen  bool
	maxSamp int
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// watchdog ends the worker when one case runs away. It measures the CPU this
// process used on the case and its live heap, not the wall clock.
func (w *worker) watchdog() {
	last, start := int64(-1), 0.0
	for {
		time.Sleep(25 * time.Millisecond)
		n := w.caseNo.Load()
		if n != last {
			last, start = n, cpuSeconds()
		}
		if n < 0 {
			continue
		}
		kind, msg := "", ""
		if c := cpuSeconds() - start; c > w.p.CPUSec {
			kind, msg = "hang", fmt.Sprintf("no result after %.0f CPU seconds on one case", c)
		} else if h := heapBytes(); h > w.p.HeapMB<<20 {
			runtime.GC() // what counts is what is live
			if h = heapBytes(); h > w.p.HeapMB<<20 {
				kind, msg = "heap", fmt.Sprintf("heap grew to %d MB on one case", h>>20)
			}
		}
		if kind != "" && w.caseNo.Load() == n {
			w.mu.Lock()
			w.res.Viol = &Violation{Case: append([]byte{}, w.curJSON...), Error: msg, Kind: kind, Shard: w.shard}
			w.finish()
			os.Exit(0)
		}
	}
}

func (w *worker) finish() {
	hf := w.out + ".hash"
	if f, err := os.Create(hf); err == nil {
		buf := make([]byte, 0, 8*len(w.hashes))
		for h := range w.hashes {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		f.Write(buf)
		f.Close()
	}
	w.res.NonTriv = len(w.hashes)
	w.res.HashFile = hf
	b, err := json.Marshal(w.res)
	if err != nil {
		b, _ = json.Marshal(WorkerResult{Err: "marshal: " + err.Error()})
	}
	os.WriteFile(w.out+".tmp", b, 0o644)
	os.Rename(w.out+".tmp", w.out)
}

// eval runs one case with journal, statistics and watchdog.
func (w *worker) eval(c any, enum bool) error {
	b, err := json.Marshal(c)
	if err != nil {
		return bug("marshal case: %v", err)
	}
	w.mu.Lock()
	w.curJSON = b
	w.mu.Unlock()
	if w.journal != nil {
		hdr := binary.LittleEndian.AppendUint64(nil, uint64(len(b)))
		w.journal.WriteAt(append(hdr, b...), 0)
	}
	w.caseNo.Add(1)
	o := &Obs{labels: map[string]int{}}
	err = runCheck(w.p, c, o)
	w.caseNo.Add(1)
	if w.frozen {
		return err
	}
	w.res.Evals++
	if enum {
		w.res.Enum++
	}
	for l, n := range o.labels {
		w.res.Labels[l] += n
	}
	if o.nontriv {
		h := fnv.New64a()
		h.Write(b)
		k := h.Sum64()
		if _, ok := w.hashes[k]; !ok {
			w.hashes[k] = struct{}{}
			// samples: spread over the run
			if n := len(w.hashes); len(w.res.Samples) < w.maxSamp && (n&(n-1)) == 0 && n >= 4 && len(b) < 1500 {
				w.res.Samples = append(w.res.Samples, append([]byte{}, b...))
			}
		}
	}
	if err != nil {
		w.frozen = true
	}
	return err
}

func seedFor(seed uint64, id string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, shard)
	s := h.Sum64() >> 1
	if s == 0 {
		s = 1
	}
	return s
}

func workerMain(id, tier string, seed uint64, shard, shards int, out string, cases int, regress string, relax bool) {
	p := props[id]
	if relax {
		p.HeapMB *= 3
		p.CPUSec *= 3
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(int64(p.HeapMB) << 20 / 4 * 3) // collect hard before the watchdog judges
	w := &worker{p: p, out: out, shard: shard, hashes: map[uint64]struct{}{}, maxSamp: 3}
	w.res.Labels = map[string]int{}
	w.caseNo.Store(0)
	w.journal, _ = os.Create(out + ".journal")
	if p.Init != nil {
		if err := p.Init(); err != nil {
			w.res.Err = err.Error()
			w.finish()
			return
		}
	}
	go w.watchdog()
	fail := func(c any, err error) {
		b, _ := json.Marshal(c)
		if he, ok := err.(*harnessError); ok {
			w.res.Err = he.Error() + "\ncase: " + string(b)
			return
		}
		w.res.Viol = &Violation{Case: b, Error: err.Error(), Kind: "oracle", Shard: shard}
	}
	// 1. saved inputs
	if shard == 0 && regress != "" {
		fs, _ := filepath.Glob(filepath.Join(regress, "*.json"))
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			c := p.New()
			if err == nil {
				err = json.Unmarshal(b, c)
			}
			if err != nil {
				w.res.Err = f + ": " + err.Error()
				w.finish()
				return
			}
			w.res.Labels["saved input"]++
			if err := w.eval(c, false); err != nil {
				fail(c, err)
				w.finish()
				return
			}
		}
	}
	// 2. exhaustive small scope
	if p.Enum != nil {
		stop := false
		p.Enum(tier, shard, shards, func(c any) bool {
			if err := w.eval(c, true); err != nil {
				fail(c, err)
				stop = true
				return false
			}
			return true
		})
		if stop {
			w.finish()
			return
		}
	}
	// 3. generated cases
	if p.Gen != nil {
		n := p.Quick
		if tier == "thorough" {
			n = p.Thorough
		}
		if cases > 0 {
			n = cases
		}
		flag.Set("rapid.checks", fmt.Sprint(n))
		flag.Set("rapid.seed", fmt.Sprint(seedFor(seed, id, shard)))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "20s")
		flag.Set("rapid.steps", "30")
		var first, lastC any
		var firstErr, lastErr error
		tb := &silentTB{}
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(tb, func(t *rapid.T) {
				c := p.Gen(t)
				err := w.eval(c, false)
				if err != nil {
					if first == nil {
						first, firstErr = c, err
					}
					// while shrinking keep to the kind of failure first seen
					_, h0 := firstErr.(*harnessError)
					_, h1 := err.(*harnessError)
					if h0 != h1 {
						return
					}
					lastC, lastErr = c, err
					t.Fatalf("failed")
				}
			})
		}()
		<-done
		w.mu.Lock()
		w.caseNo.Store(-1)
		w.mu.Unlock()
		if first != nil {
			if lastC == nil {
				lastC, lastErr = first, firstErr
			}
			fail(lastC, lastErr)
		} else if tb.Failed() {
			w.res.Err = "generator trouble: " + clip(tb.log.String(), 700)
		}
	}
	w.finish()
}

// ------------------------------------------------------------------- replay

type ReplayFile struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"`
	Error    string          `json:"error"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
	Shard    int             `json:"shard"`
	Shards   int             `json:"shards"`
	Case     json.RawMessage `json:"case"`
}

// replayMain evaluates one saved case: exit 0 holds, 1 fails, 2 trouble.
func replayMain(file string) int {
	b, err := os.ReadFile(file)
	var rf ReplayFile
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[rf.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rf.Property)
		return 2
	}
	c := p.New()
	if err := json.Unmarshal(rf.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if p.Init != nil {
		if err := p.Init(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	out := filepath.Join(os.TempDir(), fmt.Sprintf("verif-replay-%d", os.Getpid()))
	defer os.Remove(out)
	defer os.Remove(out + ".hash")
	w := &worker{p: p, out: out, hashes: map[uint64]struct{}{}}
	w.res.Labels = map[string]int{}
	go func() { // a runaway case ends the replay with status 1
		w.caseNo.Store(0)
		start := cpuSeconds()
		for {
			time.Sleep(25 * time.Millisecond)
			if cpuSeconds()-start > p.CPUSec {
				fmt.Println("REPLAY hang: no result after", p.CPUSec, "CPU seconds")
				os.Exit(1)
			}
			if heapBytes() > p.HeapMB<<20 {
				fmt.Println("REPLAY heap: more than", p.HeapMB, "MB")
				os.Exit(1)
			}
		}
	}()
	err = runCheck(p, c, &Obs{labels: map[string]int{}})
	if err == nil {
		fmt.Println("REPLAY holds")
		return 0
	}
	if _, ok := err.(*harnessError); ok {
		fmt.Println("REPLAY trouble:", err)
		return 2
	}
	fmt.Println("REPLAY fails:", err)
	return 1
}

// ------------------------------------------------------------------- driver

func driveMain(id, tier string, seed uint64, verif, tmp string, shards, cases int) int {
	p := props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	start := time.Now()
	self, _ := os.Executable()
	type run struct {
		res    *WorkerResult
		err    error
		stderr string
		out    string
	}
	runs := make([]run, shards)
	limit := 800 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	runShard := func(k int, relax bool) run {
		var r run
		out := filepath.Join(tmp, fmt.Sprintf("w%d.json", k))
		r.out = out
		os.Remove(out)
		args := []string{"-mode", "worker", "-id", id, "-tier", tier, "-seed", fmt.Sprint(seed),
			"-shard", fmt.Sprint(k), "-shards", fmt.Sprint(shards), "-out", out, "-cases", fmt.Sprint(cases),
			"-regress", filepath.Join(verif, "harness", "regress", id)}
		if relax {
			args = append(args, "-relax")
		}
		cmd := exec.Command(self, args...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66", "TMPDIR="+tmp)
		so, _ := os.Create(out + ".stdout")
		se, _ := os.Create(out + ".stderr")
		cmd.Stdout, cmd.Stderr = so, se
		r.err = cmd.Start()
		if r.err == nil {
			tm := time.AfterFunc(limit-time.Since(start), func() { cmd.Process.Kill() })
			r.err = cmd.Wait()
			if !tm.Stop() {
				r.err = fmt.Errorf("time limit: inconclusive")
			}
		}
		so.Close()
		se.Close()
		b, _ := os.ReadFile(out + ".stderr")
		r.stderr = string(b)
		if b, err := os.ReadFile(out); err == nil {
			var w WorkerResult
			if json.Unmarshal(b, &w) == nil {
				r.res = &w
			}
		}
		return r
	}
	var wg sync.WaitGroup
	for k := 0; k < shards; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			runs[k] = runShard(k, false)
		}(k)
	}
	wg.Wait()

	total := WorkerResult{Labels: map[string]int{}}
	distinct := map[uint64]struct{}{}
	var viol *Violation
	var trouble []string
	replay := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d.json", id, tier, seed))
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.Remove(replay)
	save := func(v *Violation) {
		b, _ := json.MarshalIndent(ReplayFile{id, v.Kind, v.Error, seed, tier, v.Shard, shards, v.Case}, "", " ")
		os.WriteFile(replay, append(b, '\n'), 0o644)
	}
	confirm := func(v *Violation) bool {
		save(v)
		cmd := exec.Command(self, "-mode", "replay", "-file", replay)
		cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66", "TMPDIR="+tmp)
		out, err := cmd.CombinedOutput()
		if err == nil {
			return false
		}
		code := cmd.ProcessState.ExitCode()
		return code == 1 || strings.Contains(string(out), repoPath+"pkg")
	}
	// A shard that ended without an answer (killed, or a watchdog alarm that a
	// second evaluation does not confirm) is run once more, alone, with larger
	// limits, provided nothing else was found.
	retried := map[int]bool{}
	found := func() bool {
		for _, r := range runs {
			if r.res != nil && r.res.Viol != nil && r.res.Viol.Kind == "oracle" {
				return true
			}
		}
		return viol != nil
	}
	retry := func(k int, why string) bool {
		if retried[k] || found() || time.Since(start) > limit/3 {
			return false
		}
		retried[k] = true
		fmt.Printf("shard %d is run again: %s\n", k, clip(why, 300))
		runs[k] = runShard(k, true)
		return true
	}
	for k := 0; k < len(runs); k++ {
		r := runs[k]
		if r.res == nil {
			// the worker died: which case was it on?
			j, _ := os.ReadFile(r.out + ".journal")
			var c json.RawMessage
			if len(j) >= 8 {
				if n := binary.LittleEndian.Uint64(j); n <= uint64(len(j)-8) {
					c = json.RawMessage(j[8 : 8+n])
				}
			}
			if strings.Contains(r.stderr, "DATA RACE") && strings.Contains(r.stderr, repoPath+"pkg") && c != nil {
				if viol == nil {
					viol = &Violation{Case: c, Error: clip(r.stderr, 4000), Kind: "race", Shard: k}
				}
				continue
			}
			if strings.Contains(r.stderr, repoPath+"pkg") && c != nil {
				v := &Violation{Case: c, Error: clip(r.stderr, 4000), Kind: "crash", Shard: k}
				if viol == nil && confirm(v) {
					viol = v
					continue
				}
				if viol != nil {
					continue
				}
			}
			why := fmt.Sprintf("shard %d died: %v: %s", k, r.err, clip(r.stderr, 1500))
			if retry(k, why) {
				k--
				continue
			}
			trouble = append(trouble, why)
			continue
		}
		if v := r.res.Viol; v != nil && v.Kind != "oracle" && viol == nil {
			if confirm(v) {
				viol = v
			} else {
				why := fmt.Sprintf("shard %d: %s not confirmed: %s", k, v.Kind, v.Error)
				if retry(k, why) {
					k--
					continue
				}
				trouble = append(trouble, why)
			}
		}
		if r.res.Err != "" {
			trouble = append(trouble, fmt.Sprintf("shard %d: %s", k, r.res.Err))
		}
		total.Evals += r.res.Evals
		total.Enum += r.res.Enum
		total.Known += r.res.Known
		for l, n := range r.res.Labels {
			total.Labels[l] += n
		}
		if hb, err := os.ReadFile(r.res.HashFile); err == nil {
			for i := 0; i+8 <= len(hb); i += 8 {
				distinct[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
			}
		}
		if len(total.Samples) < 6 {
			for _, s := range r.res.Samples {
				if len(total.Samples) < 6 {
					total.Samples = append(total.Samples, s)
				}
			}
		}
		if v := r.res.Viol; v != nil && v.Kind == "oracle" {
			// prefer the smallest
			if viol == nil || viol.Kind != "oracle" || len(v.Case) < len(viol.Case) {
				viol = v
			}
		}
	}
	var known []string
	if p.Known != nil {
		var err error
		known, err = p.Known()
		if err != nil {
			trouble = append(trouble, err.Error())
		}
	}
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	cov := map[string]any{
		"evaluations":         total.Evals,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             total.Samples,
		"classes":             total.Labels,
	}
	if total.Samples == nil {
		cov["samples"] = []string{}
	}
	if p.Enum != nil {
		cov["enumerated_cases"] = total.Enum
		cov["enumerated_space"] = p.EnumDesc
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": nviol,
		"assumptions": append([]string{"the reference model in /verif/harness (grammar analysis, Earley recogniser, BNF reader) is right; it is cross-validated by the selftest in setup_cmd"}, p.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)

	fmt.Printf("%s %s seed=%d: %d cases (%d enumerated), %d distinct non-trivial, %.1fs\n", id, tier, seed,
		total.Evals, total.Enum, len(distinct), time.Since(start).Seconds())
	var ls []string
	for l := range total.Labels {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Printf("  %-50s %d\n", l, total.Labels[l])
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if viol != nil {
		save(viol)
		fmt.Printf("kind: %s\ncase: %s\nerror: %s\n", viol.Kind, clip(string(viol.Case), 3000), clip(viol.Error, 3000))
		for _, t := range trouble {
			fmt.Println("also:", t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	if len(trouble) > 0 {
		for _, t := range trouble {
			fmt.Println("ERROR:", t)
		}
		return 2
	}
	return 0
}

func main() {
	testing.Init()
	mode := flag.String("mode", "drive", "drive, worker, replay, selftest, list")
	id := flag.String("id", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 8, "")
	out := flag.String("out", "", "")
	cases := flag.Int("cases", 0, "override cases per shard")
	regress := flag.String("regress", "", "")
	relax := flag.Bool("relax", false, "larger watchdog limits")
	verif := flag.String("verif", "/verif", "")
	tmp := flag.String("tmp", "", "")
	file := flag.String("file", "", "replay file")
	flag.Parse()
	switch *mode {
	case "drive":
		os.Exit(driveMain(*id, *tier, *seed, *verif, *tmp, *shards, *cases))
	case "worker":
		workerMain(*id, *tier, *seed, *shard, *shards, *out, *cases, *regress, *relax)
	case "replay":
		os.Exit(replayMain(*file))
	case "selftest":
		os.Exit(selftest())
	case "list":
		var l []string
		for k := range props {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
	}
}
