// Package fuzz drives the checks of plain bytes with Go's coverage-guided fuzzer.
package fuzz

import (
	"testing"

	"vpharness/props"
)

func target(f *testing.F, name string) {
	r := props.Raws[name]
	for _, s := range r.Seeds() {
		f.Add(s)
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) > 4096 {
			return
		}
		c, run := r.Case(b)
		if err := run(); err != nil {
			t.Errorf("%s\n%s\n%v", r.Prop, c, err)
		}
	})
}

func FuzzMessage(f *testing.F)   { target(f, "Message") }
func FuzzPart(f *testing.F)      { target(f, "Part") }
func FuzzLegal(f *testing.F)     { target(f, "Legal") }
func FuzzPrimitive(f *testing.F) { target(f, "Primitive") }
func FuzzStream(f *testing.F)    { target(f, "Stream") }
