package engine

import (
	"os"
	"path/filepath"
	"strings"
	"sync"
)

var findings = sync.OnceValue(func() map[string]string {
	root := os.Getenv("VP_ROOT")
	if root == "" {
		root = "/verif"
	}
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		prop, rest, _ := strings.Cut(rest, " id=")
		id, desc, _ := strings.Cut(rest, " ")
		m[prop+" "+id] = desc
	}
	return m
})

// Listed tells whether known_findings.txt lists a finding of a property.
func Listed(prop, id string) (string, bool) {
	d, ok := findings()[prop+" "+id]
	return d, ok
}
