// vp runs the generated-input checks of /verif against /repo.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"

	"vpharness/engine"
	"vpharness/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vp check ID | replay ID FILE | list")
		os.Exit(engine.ExitError)
	}
	verif := os.Getenv("VP_ROOT")
	if verif == "" {
		verif = "/verif"
	}
	verif, _ = filepath.Abs(verif)
	find := func(id string) *engine.Property {
		for _, p := range props.All() {
			if p.ID == id {
				return p
			}
		}
		fmt.Fprintf(os.Stderr, "no property %s\n", id)
		os.Exit(engine.ExitError)
		return nil
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props.All() {
			race := ""
			if p.Race {
				race = " race"
			}
			fmt.Printf("%s%s\n", p.ID, race)
		}
	case "check":
		os.Exit(engine.Supervise(find(os.Args[2]), verif))
	case "worker":
		p := find(os.Args[2])
		var a engine.WorkerArgs
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		fs.StringVar(&a.Tier, "tier", "quick", "")
		fs.Uint64Var(&a.Seed, "seed", 1, "")
		fs.StringVar(&a.Out, "out", "", "")
		fs.StringVar(&a.Stuck, "stuck", "", "")
		fs.StringVar(&a.Persist, "persist", "", "")
		fs.StringVar(&a.Only, "only", "", "")
		fs.StringVar(&a.Corpus, "corpus", "", "")
		fs.Float64Var(&a.Scale, "scale", 1, "")
		_ = fs.Parse(os.Args[3:])
		os.Args = os.Args[:1]
		engine.RunWorker(p, a)
	case "replay":
		engine.Replay(find(os.Args[2]), os.Args[3])
	default:
		os.Exit(engine.ExitError)
	}
}
