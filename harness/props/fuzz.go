package props

import (
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"sort"

	"github.com/dufourgilles/emberlib/embertree"
	"pgregory.net/rapid"
	"vpharness/ber"
	"vpharness/engine"
	"vpharness/glow"
)

// Raw judges plain bytes, as coverage-guided fuzzing supplies them. It names
// the sub-check whose case they make, so that a failure replays as one.
type Raw struct {
	Prop, Sub string
	Seeds     func() [][]byte
	Case      func(b []byte) (json.RawMessage, func() error)
}

func rawCase[C any](c C, run func(C, *engine.Obs) error) (json.RawMessage, func() error) {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b, func() error { return run(c, &engine.Obs{}) }
}

// fuzzOf lists the fuzz targets that decide a property.
func fuzzOf(id string) []engine.FuzzTarget {
	var out []engine.FuzzTarget
	for name, r := range Raws {
		if r.Prop == id {
			out = append(out, engine.FuzzTarget{Name: name, Sub: r.Sub, Seeds: r.Seeds, Case: func(b []byte) json.RawMessage { c, _ := r.Case(b); return c }})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// Raws are the fuzz targets.
var Raws = map[string]Raw{
	"Message": {"C09", "hostile bytes", seedMessages, func(b []byte) (json.RawMessage, func() error) {
		return rawCase(HostileCase{Target: "message", In: [][]byte{b}}, hostile)
	}},
	"Part": {"C09", "hostile bytes", seedMessages, func(b []byte) (json.RawMessage, func() error) {
		c := HostileCase{Target: "element", In: [][]byte{b}}
		if len(b) > 0 {
			c.Target = hostileTargets[3:][int(b[0])%(len(hostileTargets)-3)]
			c.In[0] = b[1:]
		}
		return rawCase(c, hostile)
	}},
	"Legal": {"C08", "bytes", seedMessages, func(b []byte) (json.RawMessage, func() error) { return rawCase(Blob{Pat: b, N: len(b)}, legalBytes) }},
	"Primitive": {"C04", "junk", func() [][]byte { return [][]byte{{0, 0, 1, 5}, {3, 0, 0x80, 0, 1}} }, func(b []byte) (json.RawMessage, func() error) {
		j := Junk{K: "int", Len: -1}
		if len(b) > 2 {
			j.K = primKinds[int(b[0])%len(primKinds)]
			if b[1]&1 == 1 {
				j.Len = -2
			}
			j.Body = b[2:]
			if len(j.Body) > 120 {
				j.Body, j.Tail = j.Body[:120], j.Body[120:]
			}
		}
		return rawCase(j, junk)
	}},
	"Stream": {"C21", "noise", func() [][]byte {
		var out [][]byte
		for _, m := range seedMessages() {
			fs, err := libFrames(m)
			if err != nil {
				panic(err)
			}
			out = append(out, fs[0])
		}
		return out
	}, func(b []byte) (json.RawMessage, func() error) {
		c := noiseCase{B: Blob{Pat: b, N: len(b)}, Tail: framedMsg{P: Blob{Pat: []byte("after"), N: 5}}}
		return rawCase(c, runNoise)
	}},
}

func seedMessages() [][]byte {
	v := func(s string) glow.Val { return glow.Val{T: "str", S: []byte(s)} }
	es := []*glow.Elem{
		{Kind: glow.Node, Num: 1, C: &glow.Contents{V: map[int]glow.Val{0: v("n")}}, Kids: []*glow.Elem{
			{Kind: glow.Param, Num: 2, C: &glow.Contents{V: map[int]glow.Val{0: v("p"), 2: {T: "real", R: 0x3ff8000000000000}}}},
			{Kind: glow.Cmd, Num: 32, C: &glow.Contents{Flags: -1}},
		}},
		{Kind: glow.Matrix, Num: 3, C: &glow.Contents{V: map[int]glow.Val{0: v("m")}, Labels: []glow.Label{{Base: []int32{1, 2}, Desc: []byte("l")}}}, Lists: 7,
			Targets: []int32{1}, Sources: []int32{2}, Conns: []glow.Conn{{Target: 1, Sources: []int32{2}, Op: 1}}},
		{Kind: glow.Func, Num: 4, Qual: true, Path: []int32{4}, C: &glow.Contents{V: map[int]glow.Val{0: v("f")}, Args: []glow.Tuple{{Type: 1, Name: []byte("a")}}}},
	}
	var out [][]byte
	for _, e := range es {
		out = append(out, glow.Style{}.Root([]*glow.Elem{e}), glow.Style{Forms: []byte{1}}.Root([]*glow.Elem{e}))
	}
	g := rapid.Custom(func(t *rapid.T) []byte { return legalMessage(t) })
	for i := 0; i < 80; i++ {
		out = append(out, g.Example(i))
	}
	return out
}

func legalMessage(t *rapid.T) []byte {
	c := genRootCase(false)(t)
	return c.Style.Root(c.Es)
}

// shortest: integers have no needless octets, as BER requires, and reals fit
// a double.
func shortest(n *ber.Node) error {
	if n.Tag == ber.Int {
		if _, minimal, err := ber.ParseInt(n.Prim); err != nil || !minimal {
			return fmt.Errorf("integer % x", n.Prim)
		}
	}
	if n.Tag == ber.Real && len(n.Prim) > 1 {
		// beyond the range of a double
		if v, err := ber.ParseReal(n.Prim); err != nil || math.Abs(v) < 1e-307 || math.IsInf(v, 0) {
			return fmt.Errorf("real % x", n.Prim)
		}
	}
	for _, k := range n.Kids {
		if err := shortest(k); err != nil {
			return err
		}
	}
	return nil
}

// usual: every field has a type and a value the schema gives it.
func usual(e *glow.Elem) bool {
	for _, c := range e.Conns {
		if c.Op < 0 || c.Op > 2 || c.Disp < 0 || c.Disp > 3 {
			return false
		}
	}
	if e.C == nil || e.Kind == glow.Cmd {
		return true
	}
	for _, x := range append(slices.Clone(e.C.Args), e.C.Res...) {
		if x.Type < 0 || x.Type > 7 {
			return false
		}
	}
	specs := map[int]fieldSpec{}
	for _, f := range fieldsOf(e.Kind, false) {
		specs[f.k] = f
	}
	for k, v := range e.C.V {
		f, ok := specs[k]
		if !ok || f.fixed > 0 && (v.T != "int" || v.I < 0 || v.I >= int64(f.fixed)) {
			return false
		}
		if f.fixed == 0 && !slices.Contains(f.types, v.T) {
			return false
		}
	}
	return true
}

// legalBytes: what the independent decoder understands, the library does too,
// and alike.
func legalBytes(b Blob, o *engine.Obs) error {
	raw := b.Bytes()
	es, err := glow.ParseRoot(raw)
	if err == nil {
		top, _, _ := ber.Parse(raw, ber.Rules{})
		err = shortest(top)
	}
	if err != nil {
		o.Label("not legal")
		o.Trivial()
		return nil
	}
	want := newM("", nil, 0)
	kinds := map[string]string{}
	top, _, _ := ber.Parse(raw, ber.Rules{})
	odd := len(top.Kids) == 0
	for _, e := range es {
		path := []int32{e.Number()}
		if e.Qual {
			path = e.Path
			odd = odd || len(path) != 1
		}
		var visit func(e *glow.Elem, path []int32)
		visit = func(e *glow.Elem, path []int32) {
			k := pathKey(path)
			// outside the domain: a path announced twice, or under a path of its own
			if kinds[k] != "" && kinds[k] != e.Kind || e.Qual && len(path) > 1 || !usual(e) {
				odd = true
			}
			kinds[k] = e.Kind
			for _, kid := range e.Kids {
				visit(kid, append(append([]int32{}, path...), kid.Number()))
			}
		}
		visit(e, path)
	}
	if odd {
		o.Label("outside the domain")
		o.Trivial()
		return nil
	}
	o.Label(fmt.Sprintf("%d elements", len(kinds)))
	tree := embertree.NewTree()
	r, overwrite := borrowed(raw)
	if e := tree.Decode(r); e != nil {
		return fmt.Errorf("legal message %s rejected: %s", hexs(raw), emsg(e))
	}
	overwrite()
	want.announce(es, nil)
	if err := want.checkRoot(tree); err != nil {
		return fmt.Errorf("decoded from %s: %w", hexs(raw), err)
	}
	return nil
}

// genMangled draws messages next to legal ones: parts dropped, doubled, moved
// and replaced.  The independent decoder tells which are still legal.
func genMangled(t *rapid.T) Blob {
	node := legalNode(t, "message")
	for i, n := 0, rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "edits"); i < n; i++ {
		var all []*ber.Node
		var walk func(n *ber.Node)
		walk = func(n *ber.Node) {
			if n.Constructed() && len(n.Kids) > 0 {
				all = append(all, n)
			}
			for _, k := range n.Kids {
				walk(k)
			}
		}
		walk(node)
		if len(all) == 0 {
			break
		}
		n := rapid.SampledFrom(all).Draw(t, "where")
		j := rapid.IntRange(0, len(n.Kids)-1).Draw(t, "which")
		like := func(n *ber.Node) *ber.Node {
			var same []*ber.Node
			for _, m := range all {
				if m.Tag == n.Tag {
					same = append(same, m)
				}
			}
			return rapid.SampledFrom(same).Draw(t, "from")
		}
		switch rapid.IntRange(0, 3).Draw(t, "edit") {
		case 0:
			n.Kids = append(append([]*ber.Node{}, n.Kids[:j]...), n.Kids[j+1:]...)
		case 1:
			m := like(n)
			n.Kids = append(append([]*ber.Node{}, n.Kids...), m.Kids[rapid.IntRange(0, len(m.Kids)-1).Draw(t, "piece")].Clone())
		case 2:
			m := like(n)
			n.Kids[j] = m.Kids[rapid.IntRange(0, len(m.Kids)-1).Draw(t, "piece")].Clone()
		case 3:
			if k := n.Kids[j]; !k.Constructed() {
				k.Prim = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "content")
			} else {
				n.Kids = append(n.Kids[1:], n.Kids[0])
			}
		}
	}
	b := genStyle(t).Tree(node)
	return Blob{Pat: b, N: len(b)}
}
