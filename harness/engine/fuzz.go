package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// FuzzTarget is a coverage-guided stage of the thorough tier: the function
// Fuzz<Name> of harness/fuzz judges plain bytes, which Case turns into a case
// of the sub-check Sub, so that what it finds replays like any other case.
type FuzzTarget struct {
	Name, Sub string
	Seeds     func() [][]byte
	Case      func([]byte) json.RawMessage
}

var execsRe = regexp.MustCompile(`execs: (\d+).*\(total: (\d+)\)`)

// fuzz runs one target for d.  Whatever the fuzzer rejects is decided by
// replaying it as a case in a fresh process.
func fuzz(p *Property, f FuzzTarget, verif, scratch string, d time.Duration) (map[string]int, *Failure, int) {
	dir := filepath.Join(verif, "harness", "fuzz")
	found := filepath.Join(dir, "testdata", "fuzz", "Fuzz"+f.Name)
	_ = os.RemoveAll(found)
	defer os.RemoveAll(filepath.Join(dir, "testdata"))
	var out bytes.Buffer
	cmd := exec.Command("go", "test", "./fuzz", "-run", "xxx", "-fuzz", "^Fuzz"+f.Name+"$", "-fuzztime", d.String(), "-test.fuzzcachedir", filepath.Join(scratch, "fuzz"+f.Name))
	cmd.Dir = filepath.Join(verif, "harness")
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	stats := map[string]int{}
	if ms := execsRe.FindAllStringSubmatch(out.String(), -1); len(ms) > 0 {
		m := ms[len(ms)-1]
		stats["executions"], _ = strconv.Atoi(m[1])
		stats["inputs kept for new coverage"], _ = strconv.Atoi(m[2])
	}
	if err == nil {
		return stats, nil, ExitOK
	}
	files, _ := filepath.Glob(filepath.Join(found, "*"))
	sort.Strings(files)
	try := func(in []byte) *Failure {
		fl := &Failure{Sub: f.Sub, Msg: "found by coverage-guided fuzzing", Case: f.Case(in)}
		rec, _ := json.Marshal(fl)
		tmp := filepath.Join(scratch, "fuzzcase.json")
		if os.WriteFile(tmp, rec, 0o644) != nil {
			return nil
		}
		r := self([]string{"replay", p.ID, tmp}, nil, 5*time.Minute)
		if r.code == ExitViolation || r.code == ExitStuck || crashIsOurs(r.stderr) {
			return fl
		}
		return nil
	}
	for _, m := range regexp.MustCompile(`Fuzz`+f.Name+`/seed#(\d+)`).FindAllStringSubmatch(out.String(), -1) {
		i, _ := strconv.Atoi(m[1])
		if fl := try(f.Seeds()[i]); fl != nil {
			return stats, fl, ExitViolation
		}
	}
	for _, file := range files {
		b, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		lines := strings.SplitN(string(b), "\n", 3)
		if len(lines) < 2 || !strings.HasPrefix(lines[1], "[]byte(") {
			continue
		}
		in, err := strconv.Unquote(strings.TrimSuffix(strings.TrimPrefix(lines[1], "[]byte("), ")"))
		if err != nil {
			continue
		}
		if fl := try([]byte(in)); fl != nil {
			return stats, fl, ExitViolation
		}
	}
	if stats["executions"] > 0 && len(files) == 0 && !strings.Contains(out.String(), "--- FAIL: Fuzz"+f.Name) {
		return stats, nil, ExitOK
	}
	if strings.Contains(out.String(), "context deadline exceeded") && len(files) == 0 {
		return stats, nil, ExitOK // the fuzzer's own time ran out while it was starting a case
	}
	fmt.Fprintf(os.Stderr, "fuzz target %s: inconclusive\n%s\n", f.Name, tail(out.Bytes(), 3000))
	return stats, nil, ExitError
}
