package props

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sync"

	"pgregory.net/rapid"
	"vpharness/engine"
)

// ---- C30: separate objects used at the same time

// job is one use of the library that has an oracle of its own.
type job struct {
	draw func(*rapid.T) json.RawMessage
	run  func(json.RawMessage) error
}

func asJob[C any](gen func(*rapid.T) C, run func(C, *engine.Obs) error) job {
	return job{
		draw: func(t *rapid.T) json.RawMessage {
			b, err := json.Marshal(gen(t))
			if err != nil {
				panic(err)
			}
			return b
		},
		run: func(raw json.RawMessage) error {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				return err
			}
			return run(c, &engine.Obs{})
		},
	}
}

var jobs = map[string]job{
	"write and read":        asJob(genPrims, roundTrip),
	"wire form":             asJob(genPrims, wireForm),
	"read spellings":        asJob(genSpell, spelling),
	"read junk":             asJob(genJunk, junk),
	"containers":            asJob(genBoxCase, func(c BoxCase, o *engine.Obs) error { return boxes(c, false, o) }),
	"element round trip":    asJob(genElemCase(true), elemRoundTrip),
	"message round trip":    asJob(genRootCase(true), rootRoundTrip),
	"encode a message":      asJob(genRootCase(true), rootConforms),
	"decode a message":      asJob(genRootCase(false), rootSpelled),
	"parts":                 asJob(genPartCase(true), partRoundTrip),
	"histories":             asJob(genHistory, mergeHistory),
	"paths":                 asJob(genPathProgram, runPaths),
	"listeners":             asJob(genListen, runListen),
	"directory requests":    asJob(genDir, directories),
	"values":                asJob(genValProg, runValProg),
	"matrices":              asJob(genMatProg, runMatProg),
	"functions":             asJob(genFuncProg, runFuncProg),
	"invocations":           asJob(genInvCase, runInvCase),
	"renderings":            asJob(genRenderCase, runRender),
	"frames there and back": asJob(genFraming, runFraming),
	"frames":                asJob(genPayload, runWire),
	"damaged streams":       asJob(genDamage, runDamage),
	"keep-alive frames":     asJob(func(*rapid.T) int { return 0 }, runKeepAlives),
	"errors":                asJob(genErr, runErr),
	"tree fetch":            asJob(genServe, runServe),
	"traffic":               asJob(genAlive, runAlive),
}

var quietJobs, clientJobs = jobNames()

func jobNames() (quiet, clients []string) {
	for _, n := range []string{"write and read", "wire form", "read spellings", "read junk", "containers", "element round trip", "message round trip", "encode a message",
		"decode a message", "parts", "histories", "paths", "listeners", "directory requests", "values", "matrices", "functions", "invocations", "renderings",
		"frames there and back", "frames", "damaged streams", "keep-alive frames", "errors"} {
		quiet = append(quiet, n)
	}
	return quiet, []string{"tree fetch", "traffic"}
}

type task struct {
	Job  string
	Case json.RawMessage
}

type apartCase struct {
	Tasks []task
	Reps  int
}

func genApart(clients int) func(*rapid.T) apartCase {
	return func(t *rapid.T) apartCase {
		c := apartCase{Reps: rapid.IntRange(1, 6).Draw(t, "reps")}
		add := func(name string) { c.Tasks = append(c.Tasks, task{Job: name, Case: jobs[name].draw(t)}) }
		if clients > 0 {
			c.Reps = 1
			for i, n := 0, rapid.IntRange(1, clients).Draw(t, "clients"); i < n; i++ {
				add(rapid.SampledFrom(clientJobs).Draw(t, "client"))
			}
		}
		same := rapid.IntRange(0, 2).Draw(t, "same") == 0
		name := ""
		for i, n := 0, rapid.IntRange(2, 6).Draw(t, "jobs"); i < n; i++ {
			if name == "" || !same {
				name = rapid.SampledFrom(quietJobs).Draw(t, "job")
			}
			add(name)
		}
		return c
	}
}

func runApart(c apartCase, o *engine.Obs) error {
	start := make(chan struct{})
	errs := make([]error, len(c.Tasks))
	var wg sync.WaitGroup
	kinds := map[string]bool{}
	for i, k := range c.Tasks {
		j, ok := jobs[k.Job]
		if !ok {
			return fmt.Errorf("no job %q", k.Job)
		}
		kinds[k.Job] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
				}
			}()
			<-start
			for n := 0; n < c.Reps && errs[i] == nil; n++ {
				errs[i] = j.run(k.Case)
			}
		}()
	}
	close(start)
	wg.Wait()
	if len(kinds) == 1 {
		o.Label("one kind of use")
	} else {
		o.Label("several kinds of use")
	}
	if len(c.Tasks)*c.Reps < 4 {
		o.Trivial()
	}
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("%s, with %d others at the same time: %w", c.Tasks[i].Job, len(c.Tasks)-1, err)
		}
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID:    "C30",
		Title: "Separate objects do not influence one another",
		Rule:  "four uses or more overlap",
		Race:  true,
		Live:  true,
		Subs: []engine.Sub{
			engine.NewSubLimits("objects", 1600, 40000, clientLimits, genApart(0), runApart),
			engine.NewSubLimits("clients", 300, 8000, clientLimits, genApart(3), runApart),
		},
	})
}
