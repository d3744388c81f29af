package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Supervise runs a property's worker in a child process, turns what happened
// into the check's verdict and rewrites the evidence file.
func Supervise(p *Property, verif string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	scratch, err := os.MkdirTemp("", "vp-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return ExitError
	}
	defer os.RemoveAll(scratch)

	var res *Result
	var fail *Failure
	var code int
	if p.Live {
		res, fail, code = superviseMany(p, verif, scratch, tier, seed)
	} else {
		res, fail, code = superviseOnce(p, verif, scratch, tier, seed, 1, true)
	}
	if res == nil {
		res = &Result{}
	}
	if d := fuzzTime(tier); code == ExitOK && d > 0 {
		res.fuzzed = map[string]map[string]int{}
		for _, f := range p.Fuzz {
			var stats map[string]int
			if stats, fail, code = fuzz(p, f, verif, scratch, d); code != ExitOK {
				break
			}
			res.fuzzed["Fuzz"+f.Name] = stats
		}
	}
	violations := 0
	if fail != nil {
		violations = 1
	}
	if code == ExitOK || code == ExitViolation {
		if err := writeEvidence(p, verif, tier, seed, res, violations, time.Since(start)); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return ExitError
		}
	}
	for _, k := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	if fail != nil {
		b, _ := json.MarshalIndent(map[string]any{"Property": p.ID, "Sub": fail.Sub, "Msg": fail.Msg, "Case": fail.Case}, "", " ")
		dir := filepath.Join(verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", p.ID, fail.Sub, Hash(fail.Case)))
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return ExitError
		}
		fmt.Printf("%s/%s: %s\n", p.ID, fail.Sub, plain(fail.Msg))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return ExitViolation
	}
	if code == ExitOK {
		fmt.Printf("%s held: %d cases, %d distinct non-trivial, %.1fs (tier %s, seed %d)\n", p.ID, res.Evals, res.Distinct, time.Since(start).Seconds(), tier, seed)
	}
	return code
}

// fuzzTime is how long each coverage-guided stage runs.
func fuzzTime(tier string) time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VP_FUZZ")); err == nil {
		return d
	}
	if tier == "thorough" {
		return 10 * time.Minute
	}
	return 0
}

type runOut struct {
	code   int
	signal bool
	stderr []byte
}

func self(args []string, env []string, wall time.Duration) runOut {
	cmd := exec.Command(os.Args[0], args...)
	var eb bytes.Buffer
	cmd.Stdout = os.Stderr
	cmd.Stderr = &eb
	cmd.Env = append(os.Environ(), env...)
	if err := cmd.Start(); err != nil {
		return runOut{code: ExitError, stderr: []byte(err.Error())}
	}
	t := time.AfterFunc(wall, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	out := runOut{stderr: eb.Bytes()}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			out.code = ee.ExitCode()
			out.signal = ee.ExitCode() < 0
		} else {
			out.code = ExitError
		}
	}
	return out
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func head(b []byte, n int) string {
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

// crashIsOurs tells whether a dead worker's output shows the code under test
// crashing (rather than the harness, memory exhaustion or a kill).
func crashIsOurs(stderr []byte) bool {
	s := string(stderr)
	if strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate memory") {
		// one request for a gigabyte is nobody else's fault
		m := regexp.MustCompile(`runtime\.mallocgc\(0x([0-9a-f]+)`).FindStringSubmatch(s)
		if m == nil {
			return false
		}
		if n, err := strconv.ParseUint(m[1], 16, 64); err != nil || n < 1<<30 {
			return false
		}
		if i := strings.Index(s, "[running]:"); i >= 0 {
			s = "panic: " + s[i:]
		}
	}
	i := strings.Index(s, "fatal error: ")
	if j := strings.Index(s, "panic: "); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return false
	}
	s = s[i:]
	// the first goroutine's stack is the one that failed
	if k := strings.Index(s, "\n\ngoroutine "); k >= 0 {
		if k2 := strings.Index(s[k+2:], "\n\ngoroutine "); k2 >= 0 {
			s = s[:k+2+k2]
		}
	}
	return strings.Contains(s, "github.com/dufourgilles/emberlib/")
}

func crashLine(stderr []byte) string {
	var out []string
	for _, l := range strings.Split(string(stderr), "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			out = append(out, l)
		} else if len(out) > 0 && strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
			break
		}
	}
	return strings.Join(out, "; ")
}

func raceReport(stderr []byte) string {
	s := string(stderr)
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if k := strings.Index(s, "=================="); k > 0 {
		s = s[:k]
	}
	return s
}

// procs is how many processes share the cases of a live property.
const procs = 6

// superviseMany splits the cases among processes with seeds of their own.
func superviseMany(p *Property, verif, scratch, tier string, seed uint64) (*Result, *Failure, int) {
	type outcome struct {
		res  *Result
		fail *Failure
		code int
	}
	outs := make([]outcome, procs)
	var wg sync.WaitGroup
	for i := range outs {
		dir := filepath.Join(scratch, fmt.Sprint(i))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return nil, nil, ExitError
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := &outs[i]
			o.res, o.fail, o.code = superviseOnce(p, verif, dir, tier, seed*procs+uint64(i), 1.0/procs, i == 0)
		}()
	}
	wg.Wait()
	all := &Result{Labels: map[string]int{}, PerSub: map[string]int{}}
	var fail *Failure
	code := ExitOK
	seen := map[uint64]bool{}
	for _, o := range outs {
		if o.fail != nil && fail == nil {
			fail = o.fail
		}
		if o.code != ExitOK && code != ExitViolation {
			code = o.code
		}
		if o.code == ExitViolation {
			code = ExitViolation
		}
		if o.res == nil {
			continue
		}
		all.Evals += o.res.Evals
		all.Corpus += o.res.Corpus
		for k, n := range o.res.Labels {
			all.Labels[k] += n
		}
		for k, n := range o.res.PerSub {
			all.PerSub[k] += n
		}
		all.Samples = append(all.Samples, o.res.Samples...)
		for _, h := range o.res.Hashes {
			seen[h] = true
		}
	}
	all.Distinct = len(seen)
	return all, fail, code
}

func superviseOnce(p *Property, verif, scratch, tier string, seed uint64, scale float64, corpus bool) (*Result, *Failure, int) {
	out := filepath.Join(scratch, "result.json")
	stuck := filepath.Join(scratch, "stuck.json")
	persist := filepath.Join(scratch, "case.json")
	wall := 800 * time.Second
	if tier == "thorough" {
		wall = 3 * time.Hour
	}
	base := []string{"worker", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-out", out, "-stuck", stuck}
	if corpus {
		base = append(base, "-corpus", filepath.Join(verif, "corpus", p.ID))
	}
	if v, err := strconv.ParseFloat(os.Getenv("VP_SCALE"), 64); err == nil {
		scale *= v
	}
	base = append(base, "-scale", fmt.Sprint(scale))
	if v := os.Getenv("VP_ONLY"); v != "" {
		base = append(base, "-only", v)
	}
	env := []string{"GORACE=halt_on_error=1 exitcode=66"}
	args := base
	if p.Race || p.Live {
		args = append(append([]string{}, base...), "-persist", persist)
	}
	r := self(args, env, wall)
	readResult := func() *Result {
		b, err := os.ReadFile(out)
		if err != nil {
			return nil
		}
		var res Result
		if json.Unmarshal(b, &res) != nil {
			return nil
		}
		return &res
	}
	switch {
	case r.code == ExitOK:
		res := readResult()
		if res == nil {
			return nil, nil, ExitError
		}
		return res, nil, ExitOK
	case r.code == ExitViolation:
		res := readResult()
		if res == nil || res.Failure == nil {
			fmt.Fprintf(os.Stderr, "worker exited 1 without a result\n%s\n", tail(r.stderr, 4000))
			return nil, nil, ExitError
		}
		return res, res.Failure, ExitViolation
	case r.code == ExitStuck:
		f, err := LoadFailure(stuck)
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker stuck, no case:", err)
			return nil, nil, ExitError
		}
		// Confirm in fresh processes: the same single case must fail to finish again, twice.
		for i := 0; i < 2; i++ {
			c := self([]string{"replay", p.ID, stuck}, env, 5*time.Minute)
			if c.code == ExitViolation {
				continue
			}
			if c.code != ExitStuck {
				fmt.Fprintf(os.Stderr, "case did not finish once but did on replay (exit %d): inconclusive\n", c.code)
				return nil, nil, ExitError
			}
		}
		f.Msg = "does not terminate (" + f.Msg + ", confirmed twice in fresh processes)"
		return &Result{Evals: 1}, f, ExitViolation
	}
	if p.Race && r.code == 66 {
		rep := raceReport(r.stderr)
		f, err := LoadFailure(persist)
		if err == nil && strings.Contains(rep, "github.com/dufourgilles/emberlib/") {
			f.Msg = "data race in the code under test while running this case: " + head([]byte(rep), 3000)
			return &Result{Evals: 1}, f, ExitViolation
		}
		fmt.Fprintf(os.Stderr, "race report outside the code under test\n%s\n", tail(r.stderr, 6000))
		return nil, nil, ExitError
	}
	// the process died
	if crashIsOurs(r.stderr) {
		if !p.Race && !p.Live {
			r2 := self(append(append([]string{}, base...), "-persist", persist), env, wall)
			if r2.code == ExitOK || r2.code == ExitViolation {
				if res := readResult(); res != nil && res.Failure != nil {
					return res, res.Failure, ExitViolation
				}
				fmt.Fprintf(os.Stderr, "worker died once and not again\n%s\n", tail(r.stderr, 4000))
				return nil, nil, ExitError
			}
		}
		if f, err := LoadFailure(persist); err == nil {
			f.Msg = "process crashed: " + crashLine(r.stderr)
			return &Result{Evals: 1}, f, ExitViolation
		}
	}
	fmt.Fprintf(os.Stderr, "worker died (exit %d)\n%s\n", r.code, tail(r.stderr, 6000))
	return nil, nil, ExitError
}

func writeEvidence(p *Property, verif, tier string, seed uint64, res *Result, violations int, wall time.Duration) error {
	samples := res.Samples
	if len(samples) == 0 && res.Failure != nil {
		b, _ := json.Marshal(map[string]any{"sub": res.Failure.Sub, "case": res.Failure.Case})
		samples = append(samples, b)
	}
	total := 0
	var kept []json.RawMessage
	for _, s := range samples {
		if total+len(s) > 24000 {
			continue
		}
		total += len(s)
		kept = append(kept, s)
	}
	keys := make([]string, 0, len(res.Labels))
	for k := range res.Labels {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	lab := map[string]int{}
	for i, k := range keys {
		if i < 250 {
			lab[k] = res.Labels[k]
		}
	}
	if kept == nil {
		kept = []json.RawMessage{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": res.Evals, "distinct_nontrivial": res.Distinct, "rule": p.Rule, "samples": kept,
			"per_sub_check": res.PerSub, "classes": lab, "saved_cases_replayed": res.Corpus,
		},
		"assumptions": p.Assumptions, "wall_s": wall.Seconds(), "violations": violations,
	}
	if len(res.fuzzed) > 0 {
		ev["coverage"].(map[string]any)["coverage_guided"] = res.fuzzed
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

// plain is a message as it can be printed: no control characters, further lines indented, not endless.
func plain(s string) string {
	s = strings.Map(func(r rune) rune {
		switch {
		case r == '\n' || r == '\t':
			return r
		case r < ' ' || r == 0x7f:
			return '?'
		}
		return r
	}, strings.ToValidUTF8(s, "?"))
	if len(s) > 8000 {
		s = strings.ToValidUTF8(s[:8000], "") + " ..."
	}
	return strings.ReplaceAll(s, "\n", "\n  ")
}
