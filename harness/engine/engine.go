// Package engine runs generated-input checks: each property is a list of
// sub-checks, each sub-check a generator of JSON-serialisable cases plus a
// deterministic oracle run on one case.  rapid draws and shrinks the cases; the
// oracle itself never sees rapid, so a saved case replays without it.
package engine

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes of a worker process.
const (
	ExitOK        = 0
	ExitViolation = 1
	ExitError     = 2
	ExitStuck     = 3
)

// Obs collects what one case exercised.
type Obs struct {
	labels  []string
	trivial bool
	excl    string
}

// Label classifies the case; labels are counted in the evidence.
func (o *Obs) Label(format string, a ...any) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	o.labels = append(o.labels, format)
}

// Trivial marks the case as not counting towards distinct_nontrivial.
func (o *Obs) Trivial() { o.trivial = true }

// Sub is one generated check of a property.
type Sub interface {
	Name() string
	execute(w *worker) *Failure
	replay(raw json.RawMessage) (error, error)
}

// Property groups the sub-checks that decide one listed property.
type Property struct {
	ID    string
	Title string
	Rule  string
	Race  bool
	// Live properties wait more than they compute and may crash outside the
	// goroutine of the case: their cases run in several processes at once, and
	// each case is saved before it runs.
	Live        bool
	Assumptions []string
	Subs        []Sub
	// Known lists known findings: each is demonstrated on every run.
	Known []Known
	// Fuzz lists the coverage-guided stages of the thorough tier.
	Fuzz []FuzzTarget
}

// Known is a recorded defect of the unchanged tree, shown on each run.
type Known struct {
	// ID names the entry of known_findings.txt; without one there, the defect
	// is a violation like any other.
	ID string
	// Shows returns true while the defect is still there.
	Shows func() bool
}

// Failure is a violation found by a sub-check.
type Failure struct {
	Sub  string
	Msg  string
	Case json.RawMessage
}

// Limits bounds the work of one case before the worker gives up on it.
type Limits struct {
	CPU  time.Duration // CPU time consumed while one case runs
	Wall time.Duration // wall time one case may run without finishing
	Idle bool          // wall limit counts as a deadlock of the code under test
}

var defaultLimits = Limits{CPU: 10 * time.Second, Wall: 60 * time.Second, Idle: true}

type sub[C any] struct {
	name            string
	quick, thorough int
	gen             func(*rapid.T) C
	run             func(C, *Obs) error
	limits          Limits
	enum            func(func(C) bool)
}

// NewSub makes a sub-check that draws quick or thorough cases from gen.
func NewSub[C any](name string, quick, thorough int, gen func(*rapid.T) C, run func(C, *Obs) error) Sub {
	return &sub[C]{name: name, quick: quick, thorough: thorough, gen: gen, run: run, limits: defaultLimits}
}

// NewSubLimits is NewSub with limits of its own.
func NewSubLimits[C any](name string, quick, thorough int, lim Limits, gen func(*rapid.T) C, run func(C, *Obs) error) Sub {
	return &sub[C]{name: name, quick: quick, thorough: thorough, gen: gen, run: run, limits: lim}
}

// NewEnum makes a sub-check that runs every case enum yields.
func NewEnum[C any](name string, enum func(yield func(C) bool), run func(C, *Obs) error) Sub {
	return &sub[C]{name: name, enum: enum, run: run, limits: defaultLimits}
}

func (s *sub[C]) Name() string { return s.name }

func frameOf(stack []byte) string {
	for _, l := range strings.Split(string(stack), "\n") {
		if strings.Contains(l, "/repo/") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

func (s *sub[C]) runCase(c C, o *Obs) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := debug.Stack()
			at := frameOf(st)
			err = fmt.Errorf("panic: %v (at %s)", p, at)
			if at == "" {
				err = fmt.Errorf("panic: %v\n%s", p, st)
			}
		}
	}()
	return s.run(c, o)
}

func (s *sub[C]) replay(raw json.RawMessage) (error, error) {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	stop := monitor(s.limits, func() { os.Exit(ExitStuck) })
	defer stop()
	var o Obs
	return s.runCase(c, &o), nil
}

// tbShim is the testing.TB part rapid needs.
type tbShim struct {
	name   string
	failed bool
	log    bytes.Buffer
}

type tbStop struct{}

func (t *tbShim) Helper()                           {}
func (t *tbShim) Name() string                      { return t.name }
func (t *tbShim) Logf(format string, args ...any)   { fmt.Fprintf(&t.log, format+"\n", args...) }
func (t *tbShim) Log(args ...any)                   { fmt.Fprintln(&t.log, args...) }
func (t *tbShim) Skipf(format string, args ...any)  { panic(tbStop{}) }
func (t *tbShim) Skip(args ...any)                  { panic(tbStop{}) }
func (t *tbShim) SkipNow()                          { panic(tbStop{}) }
func (t *tbShim) Errorf(format string, args ...any) { t.Logf(format, args...); t.failed = true }
func (t *tbShim) Error(args ...any)                 { t.Log(args...); t.failed = true }
func (t *tbShim) Fatalf(format string, args ...any) { t.Errorf(format, args...); panic(tbStop{}) }
func (t *tbShim) Fatal(args ...any)                 { t.Error(args...); panic(tbStop{}) }
func (t *tbShim) FailNow()                          { t.failed = true; panic(tbStop{}) }
func (t *tbShim) Fail()                             { t.failed = true }
func (t *tbShim) Failed() bool                      { return t.failed }

// worker runs the sub-checks of one property in one process.
type worker struct {
	prop    *Property
	tier    string
	seed    uint64
	persist string // file every case is written to before it runs ("" = off)
	stuck   string // file the stuck case is written to
	only    string
	scale   float64

	mu      sync.Mutex
	evals   int
	seen    map[uint64]struct{}
	labels  map[string]int
	samples []json.RawMessage
	perSub  map[string]int
	curSub  string
	cur     atomic.Pointer[func() json.RawMessage]
}

func (w *worker) count(q, t int) int {
	n := q
	if w.tier == "thorough" {
		n = t
	}
	n = int(float64(n) * w.scale)
	if n < 1 {
		n = 1
	}
	return n
}

func cpuNow() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var (
	caseNo   atomic.Uint64
	caseBusy atomic.Bool
)

// monitor calls stuck when one case exceeds its limits.
func monitor(lim Limits, stuck func()) func() {
	done := make(chan struct{})
	caseNo.Add(1)
	caseBusy.Store(true)
	go func() {
		last := caseNo.Load()
		c0, w0 := cpuNow(), time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(100 * time.Millisecond):
			}
			if n := caseNo.Load(); n != last {
				last, c0, w0 = n, cpuNow(), time.Now()
				continue
			}
			if !caseBusy.Load() {
				c0, w0 = cpuNow(), time.Now()
				continue
			}
			if lim.CPU > 0 && cpuNow()-c0 > lim.CPU {
				stuck()
				return
			}
			if lim.Wall > 0 && time.Since(w0) > lim.Wall {
				stuck()
				return
			}
		}
	}()
	return func() { close(done); caseBusy.Store(false) }
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func (s *sub[C]) execute(w *worker) *Failure {
	var last *Failure
	stop := monitor(s.limits, func() {
		f := w.cur.Load()
		var raw json.RawMessage
		if f != nil {
			raw = (*f)()
		}
		b, _ := json.Marshal(Failure{Sub: s.name, Msg: "case did not finish within its limits", Case: raw})
		_ = os.WriteFile(w.stuck, b, 0o644)
		os.Exit(ExitStuck)
	})
	defer stop()

	one := func(c C) error {
		mk := func() json.RawMessage { b, _ := json.Marshal(c); return b }
		w.cur.Store(&mk)
		raw := mk()
		if w.persist != "" {
			b, _ := json.Marshal(Failure{Sub: s.name, Msg: "worker died while running this case", Case: raw})
			_ = os.WriteFile(w.persist, b, 0o644)
		}
		var o Obs
		caseNo.Add(1)
		caseBusy.Store(true)
		err := s.runCase(c, &o)
		caseBusy.Store(false)
		w.record(s.name, raw, &o)
		if err != nil {
			last = &Failure{Sub: s.name, Msg: err.Error(), Case: raw}
		}
		return err
	}

	if s.enum != nil {
		s.enum(func(c C) bool { return one(c) == nil })
		return last
	}

	n := w.count(s.quick, s.thorough)
	seed := hash64(w.prop.ID, s.name, fmt.Sprint(w.seed)) | 1
	must(flag.Set("rapid.checks", fmt.Sprint(n)))
	must(flag.Set("rapid.seed", fmt.Sprint(seed)))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "20s"))
	tb := &tbShim{name: s.name}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbStop); !ok {
					panic(p)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := s.gen(t)
			if err := one(c); err != nil {
				t.Fatalf("%v", err)
			}
		})
	}()
	if tb.failed && last == nil {
		fmt.Fprintf(os.Stderr, "generator failure in %s/%s:\n%s\n", w.prop.ID, s.name, tb.log.String())
		os.Exit(ExitError)
	}
	return last
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(ExitError)
	}
}

func (w *worker) record(sub string, raw json.RawMessage, o *Obs) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.evals++
	w.perSub[sub]++
	for _, l := range o.labels {
		w.labels[sub+": "+l]++
	}
	if o.trivial {
		w.labels[sub+": (trivial)"]++
		return
	}
	h := fnv.New64a()
	h.Write([]byte(sub))
	h.Write(raw)
	k := h.Sum64()
	if _, ok := w.seen[k]; ok {
		return
	}
	w.seen[k] = struct{}{}
	// keep a few samples per sub-check, spread over the run
	if n := w.perSub[sub]; (n == 3 || n == 57 || n == 311) && len(raw) < 1500 {
		b, _ := json.Marshal(map[string]any{"sub": sub, "case": raw})
		if len(w.samples) < 24 {
			w.samples = append(w.samples, b)
		}
	} else if len(w.samples) == 0 && len(raw) < 3000 {
		b, _ := json.Marshal(map[string]any{"sub": sub, "case": raw})
		w.samples = append(w.samples, b)
	}
}

// Result is what a worker reports to its supervisor.
type Result struct {
	Evals    int               `json:"evals"`
	Distinct int               `json:"distinct"`
	Labels   map[string]int    `json:"labels"`
	PerSub   map[string]int    `json:"per_sub"`
	Samples  []json.RawMessage `json:"samples"`
	Failure  *Failure          `json:"failure,omitempty"`
	Known    []string          `json:"known,omitempty"`
	Hashes   []uint64          `json:"hashes,omitempty"`
	Corpus   int               `json:"corpus"`

	fuzzed map[string]map[string]int
}

// WorkerArgs configures RunWorker.
type WorkerArgs struct {
	Tier, Persist, Stuck, Out, Only, Corpus string
	Seed                                    uint64
	Scale                                   float64
}

// RunWorker runs one property in this process and exits.
func RunWorker(p *Property, a WorkerArgs) {
	debug.SetMaxStack(64 << 20)
	if os.Getenv("GOGC") == "" && p.ID != "C09" {
		// small short-lived heaps: collecting less often halves the run time
		debug.SetGCPercent(400)
		debug.SetMemoryLimit(1 << 30)
	}
	testing.Init()
	must(flag.CommandLine.Parse(nil))
	w := &worker{prop: p, tier: a.Tier, seed: a.Seed, persist: a.Persist, stuck: a.Stuck, only: a.Only, scale: a.Scale,
		seen: map[uint64]struct{}{}, labels: map[string]int{}, perSub: map[string]int{}}
	res := Result{}
	// saved cases first
	if a.Corpus != "" {
		files, _ := filepath.Glob(filepath.Join(a.Corpus, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			fl, err := LoadFailure(f)
			must(err)
			for _, s := range p.Subs {
				if s.Name() != fl.Sub || (a.Only != "" && a.Only != fl.Sub) {
					continue
				}
				if w.persist != "" {
					b, _ := json.Marshal(fl)
					_ = os.WriteFile(w.persist, b, 0o644)
				}
				raw := fl.Case
				mk := func() json.RawMessage { return raw }
				w.cur.Store(&mk)
				verr, err := w.replayGuarded(s, fl)
				must(err)
				res.Corpus++
				if verr != nil && res.Failure == nil {
					res.Failure = &Failure{Sub: fl.Sub, Msg: verr.Error(), Case: fl.Case}
				}
			}
		}
	}
	if res.Failure == nil {
		for _, s := range p.Subs {
			if a.Only != "" && a.Only != s.Name() {
				continue
			}
			w.curSub = s.Name()
			if f := s.execute(w); f != nil {
				res.Failure = f
				break
			}
		}
	}
	for _, k := range p.Known {
		if desc, ok := Listed(p.ID, k.ID); ok && k.Shows() {
			res.Known = append(res.Known, desc)
		}
	}
	res.Evals, res.Distinct, res.Labels, res.PerSub, res.Samples = w.evals+res.Corpus, len(w.seen), w.labels, w.perSub, w.samples
	if p.Live {
		for h := range w.seen {
			res.Hashes = append(res.Hashes, h)
		}
	}
	b, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(a.Out, b, 0o644))
	if res.Failure != nil {
		os.Exit(ExitViolation)
	}
	os.Exit(ExitOK)
}

func (w *worker) replayGuarded(s Sub, f *Failure) (error, error) {
	stop := monitor(defaultLimits, func() {
		b, _ := json.Marshal(f)
		_ = os.WriteFile(w.stuck, b, 0o644)
		os.Exit(ExitStuck)
	})
	defer stop()
	return s.replay(f.Case)
}

// LoadFailure reads a replay file.
func LoadFailure(path string) (*Failure, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	return &f, nil
}

// Replay runs one saved case; it exits 1 with the violation or 0 without.
func Replay(p *Property, path string) {
	debug.SetMaxStack(64 << 20)
	f, err := LoadFailure(path)
	must(err)
	for _, s := range p.Subs {
		if s.Name() == f.Sub {
			verr, err := s.replay(f.Case)
			must(err)
			if verr != nil {
				fmt.Printf("violated: property=%s sub=%s: %s\n", p.ID, f.Sub, plain(verr.Error()))
				os.Exit(ExitViolation)
			}
			fmt.Printf("held: property=%s sub=%s\n", p.ID, f.Sub)
			os.Exit(ExitOK)
		}
	}
	fmt.Fprintf(os.Stderr, "no sub-check %q in %s\n", f.Sub, p.ID)
	os.Exit(ExitError)
}

// AllocDuring reports the bytes allocated while f ran.
func AllocDuring(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// Hash of a byte string, for naming files.
func Hash(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], h.Sum64())
	return fmt.Sprintf("%x", x)
}
