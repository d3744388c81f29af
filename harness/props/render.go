package props

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/glow"
)

// shown lists the fields the rendering of each kind of contents shows.
var shown = map[string][]int{
	glow.Node:   {0, 1, 2, 3},
	glow.Param:  {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14},
	glow.Matrix: {0, 1, 2, 3},
	glow.Func:   {0, 1},
}

// plainReal draws reals that six decimals show exactly.
func plainReal(t *rapid.T) uint64 {
	return math.Float64bits(float64(rapid.IntRange(-1<<30, 1<<30).Draw(t, "eighths")) / 8)
}

// tokens makes short strings unique within a case, some with characters that
// formatting could trip over.
type tokens struct{ n int }

func (k *tokens) draw(t *rapid.T) []byte {
	k.n++
	odd := rapid.SampledFrom([]string{"", "", "", "%", "%s", "%d%%", "%!x", "{", "\n", "é", " ", "\"", "\\", "%!s(MISSING)", ":", ",", "\x00", "\xff"}).Draw(t, "odd")
	return []byte(fmt.Sprintf("t%c%c%c%sq", 'a'+k.n/676, 'a'+k.n/26%26, 'a'+k.n%26, odd))
}

func (k *tokens) contents(t *rapid.T, c *glow.Contents) {
	for f := 0; f < 20; f++ {
		v, ok := c.V[f]
		if !ok {
			continue
		}
		switch v.T {
		case "str":
			v.S = k.draw(t)
		case "bits":
			k.n++
			v.S = append([]byte{byte(k.n >> 8), byte(k.n), 0xc5}, v.S...)
		case "real":
			v.R = plainReal(t)
		}
		c.V[f] = v
	}
}

// RenderCase is a message whose elements are rendered.
type RenderCase struct {
	Es    []*glow.Elem
	Wire  bool
	Style glow.Style
	Pick  int // which element the field changes below apply to
}

func genRenderCase(t *rapid.T) RenderCase {
	c := RenderCase{Wire: rapid.Bool().Draw(t, "wire"), Style: genStyle(t), Pick: rapid.IntRange(0, 30).Draw(t, "pick")}
	o := (&treeOpts{settable: !c.Wire, depth: 4, budget: 25, bare: true}).shape(t)
	c.Es = genTop(t, o)
	k := &tokens{}
	for _, e := range c.Es {
		if e.Qual {
			e.Path = e.Path[len(e.Path)-1:]
		}
		e.Walk(func(x *glow.Elem, _ int) {
			if x.C != nil {
				if c.Wire && x.Kind == glow.Param {
					// numbers on the wire, but their getters want strings
					delete(x.C.V, 5)
					delete(x.C.V, 13)
				}
				k.contents(t, x.C)
			}
		})
	}
	return c
}

var numTok = regexp.MustCompile(`-?[0-9]+(?:\.[0-9]+)*`)

func bagOf(s string) map[string]int {
	m := map[string]int{}
	for _, t := range numTok.FindAllString(s, -1) {
		m[t]++
	}
	return m
}

func pathText(p []int32) string {
	var s []string
	for _, n := range p {
		s = append(s, strconv.Itoa(int(n)))
	}
	return strings.Join(s, ".")
}

// showsValue says whether text shows the value.
func showsValue(text string, bag map[string]int, v glow.Val) bool {
	switch v.T {
	case "str":
		return strings.Contains(text, string(v.S))
	case "bits":
		return strings.Contains(strings.ToLower(text), fmt.Sprintf("%x", v.S))
	case "int":
		return bag[strconv.FormatInt(v.I, 10)] > 0
	case "real":
		for tok := range bag {
			if f, err := strconv.ParseFloat(tok, 64); err == nil && f == math.Float64frombits(v.R) {
				return true
			}
		}
		return false
	case "bool":
		return strings.Contains(text, strconv.FormatBool(v.B))
	}
	return true
}

// clean says whether text is free of artefacts of wrong format strings; the
// input's own strings are taken out first.
func clean(text string, es []*glow.Elem) error {
	for _, e := range es {
		e.Walk(func(x *glow.Elem, _ int) {
			if x.C != nil {
				for _, v := range x.C.V {
					if v.T == "str" {
						text = strings.ReplaceAll(text, string(v.S), "")
					}
				}
			}
		})
	}
	for _, bad := range []string{"%!", "(MISSING)", "(EXTRA", "(BADINDEX)", "%s", "%d"} {
		if i := strings.Index(text, bad); i >= 0 {
			return fmt.Errorf("the rendering contains %q: ...%.60q", bad, text[max(0, i-20):])
		}
	}
	return nil
}

func (c RenderCase) tree() (*embertree.RootElement, error) {
	if c.Wire {
		root := embertree.NewTree()
		if e := root.Decode(asn1.NewASNReader(c.Style.Root(c.Es))); e != nil {
			return nil, fmt.Errorf("decoding: %s", emsg(e))
		}
		return root, nil
	}
	return buildRoot(c.Es)
}

// mentions checks that text shows what it must of the element.
func mentions(text string, bag map[string]int, x *glow.Elem, path []int32) error {
	at := fmt.Sprintf("%s %s", x.Kind, pathText(path))
	if bag[pathText(path)] == 0 {
		return fmt.Errorf("%s: its path is not shown", at)
	}
	if bag[strconv.Itoa(int(x.Number()))] == 0 {
		return fmt.Errorf("%s: its number is not shown", at)
	}
	if x.C == nil {
		return nil
	}
	for _, f := range shown[x.Kind] {
		if v, ok := x.C.V[f]; ok && (x.Kind != glow.Matrix || f < 2) && !showsValue(text, bag, v) {
			return fmt.Errorf("%s: field %d is %v, which is not shown", at, f, v)
		}
	}
	return nil
}

// altered gives the value something else of the same type.
func altered(v glow.Val, kind string, f int) glow.Val {
	switch v.T {
	case "str":
		v.S = append([]byte("other"), v.S...)
	case "bits":
		v.S = append(append([]byte{}, v.S...), 0x0a)
	case "int":
		switch {
		case kind == glow.Matrix && f == 2:
			v.I = (v.I + 1) % 3
		case kind == glow.Matrix && f == 3:
			v.I = 1 - v.I
		default:
			v.I = ^v.I
		}
	case "bool":
		v.B = !v.B
	case "real":
		v.R = math.Float64bits(math.Float64frombits(v.R) + 1)
	}
	return v
}

func runRender(c RenderCase, o *engine.Obs) error {
	root, err := c.tree()
	if err != nil {
		return err
	}
	before, err := encodeRoot(root)
	if err != nil {
		return err
	}
	text := root.ToString()
	if err := clean(text, c.Es); err != nil {
		return fmt.Errorf("tree: %w", err)
	}
	bag := bagOf(text)
	type item struct {
		e    *glow.Elem
		el   *embertree.Element
		path []int32
	}
	var items []item
	var walk func(e *glow.Elem, el *embertree.Element, path []int32)
	walk = func(e *glow.Elem, el *embertree.Element, path []int32) {
		items = append(items, item{e, el, path})
		for _, k := range e.Kids {
			walk(k, el.Children[int(k.Number())], append(append([]int32{}, path...), k.Number()))
		}
	}
	for _, e := range c.Es {
		walk(e, root.RootElementCollection[int(e.Number())], []int32{e.Number()})
	}
	// every path and number counts once for each element that has it
	need := map[string]int{}
	for _, it := range items {
		if err := mentions(text, bag, it.e, it.path); err != nil {
			return fmt.Errorf("tree: %w", err)
		}
		need[pathText(it.path)]++
		need[strconv.Itoa(int(it.e.Number()))]++
	}
	for tok, n := range need {
		if bag[tok] < n {
			return fmt.Errorf("tree: %q is shown %d times, want %d (paths and numbers)", tok, bag[tok], n)
		}
	}
	fields := 0
	for _, it := range items {
		o.Label("%s", it.e.Kind)
		sub := it.el.ToString()
		subBag := bagOf(sub)
		if err := clean(sub, c.Es); err != nil {
			return err
		}
		var below func(e *glow.Elem, path []int32) error
		below = func(e *glow.Elem, path []int32) error {
			if err := mentions(sub, subBag, e, path); err != nil {
				return err
			}
			for _, k := range e.Kids {
				if err := below(k, append(append([]int32{}, path...), k.Number())); err != nil {
					return err
				}
			}
			return nil
		}
		if err := below(it.e, it.path); err != nil {
			return fmt.Errorf("element: %w", err)
		}
		if it.e.C != nil {
			x := it.el.GetContent()
			ct := x.ToString()
			if err := clean(ct, c.Es); err != nil {
				return fmt.Errorf("contents of %s: %w", it.e.Kind, err)
			}
			cb := bagOf(ct)
			for _, f := range shown[it.e.Kind] {
				v, ok := it.e.C.V[f]
				if !ok {
					continue
				}
				fields++
				if (it.e.Kind != glow.Matrix || f < 2) && !showsValue(ct, cb, v) {
					return fmt.Errorf("contents of %s: field %d is %v, which is not shown", it.e.Kind, f, v)
				}
			}
		}
	}
	// rendering changed nothing
	after, err := encodeRoot(root)
	if err != nil {
		return err
	}
	e1, err1 := glow.ParseRoot(before)
	e2, err2 := glow.ParseRoot(after)
	if err1 != nil || err2 != nil {
		return fmt.Errorf("encodings around the rendering: %v %v", err1, err2)
	}
	if d := glow.Diff(glow.RootText(e2), glow.RootText(e1)); d != "" {
		return fmt.Errorf("rendering changed the tree: %s", d)
	}
	if err := checkTree(c.Es, root); err != nil {
		return fmt.Errorf("after rendering: %w", err)
	}
	// every shown field makes a difference
	it := items[c.Pick%len(items)]
	if it.e.C != nil && it.e.Kind != glow.Cmd {
		solo := func(mod func(x *glow.Contents)) (string, error) {
			e := it.e.Clone()
			e.Kids = nil
			one := *e.C
			one.V = map[int]glow.Val{}
			for f, v := range e.C.V {
				one.V[f] = v
			}
			e.C = &one
			mod(e.C)
			v := RenderCase{Es: []*glow.Elem{e}, Wire: c.Wire, Style: c.Style}
			r, err := v.tree()
			if err != nil {
				return "", err
			}
			return r.RootElementCollection[int(e.Number())].ToString(), nil
		}
		base, err := solo(func(*glow.Contents) {})
		if err != nil {
			return err
		}
		for _, f := range shown[it.e.Kind] {
			v, ok := it.e.C.V[f]
			if !ok {
				continue
			}
			other, err := solo(func(x *glow.Contents) { x.V[f] = altered(v, it.e.Kind, f) })
			if err != nil {
				return err
			}
			if other == base {
				return fmt.Errorf("%s renders the same with field %d %v and %v", it.e.Kind, f, v, altered(v, it.e.Kind, f))
			}
			if it.e.Kind == glow.Matrix && f >= 2 {
				// always shown
				if strings.Count(other, "\n") != strings.Count(base, "\n") {
					return fmt.Errorf("%s shows other fields with field %d %v and %v: %q %q", it.e.Kind, f, v, altered(v, it.e.Kind, f), base, other)
				}
				continue
			}
			without, err := solo(func(x *glow.Contents) { delete(x.V, f) })
			if err != nil {
				return err
			}
			if without == base {
				return fmt.Errorf("%s renders the same with field %d %v and without it", it.e.Kind, f, v)
			}
		}
	}
	if fields == 0 && len(items) < 3 {
		o.Trivial()
	}
	return nil
}

// ValueText renders one content value.
type ValueText struct{ V glow.Val }

func genValueText(t *rapid.T) ValueText {
	v := genVal(t, settableVal...)
	if v.T == "real" {
		v.R = plainReal(t)
	}
	return ValueText{v}
}

func runValueText(c ValueText, o *engine.Obs) error {
	cp := embertree.NewContentParameter()
	if s := cp.ToString(); strings.Contains(s, "%") {
		return fmt.Errorf("an unset value renders as %q", s)
	}
	setObj(cp, c.V)
	o.Label("%s", c.V.T)
	got := cp.ToString()
	want := ""
	switch c.V.T {
	case "str":
		want = string(c.V.S)
	case "bits":
		want = fmt.Sprintf("%x", c.V.S)
		got = strings.ToLower(got)
	case "int":
		want = strconv.FormatInt(c.V.I, 10)
	case "bool":
		want = strconv.FormatBool(c.V.B)
	case "oid":
		want = pathText(c.V.O)
	case "real":
		if f, err := strconv.ParseFloat(got, 64); err != nil || f != math.Float64frombits(c.V.R) {
			return fmt.Errorf("%v renders as %q", c.V, got)
		}
		want = got
	}
	if got != want {
		return fmt.Errorf("%v renders as %q, want %q", c.V, got, want)
	}
	if c.V.T == "oid" {
		if s := embertree.Path2String(roid(c.V.O)); s != want {
			return fmt.Errorf("path %v renders as %q, want %q", c.V.O, s, want)
		}
	}
	return checkCP(0, cp, &c.V)
}

// FlagsText renders a command.
type FlagsText struct{ Cmd int }

func flagTexts(yield func(FlagsText) bool) {
	for _, n := range []int{30, 31, 32, 33, 0, 7} {
		if !yield(FlagsText{n}) {
			return
		}
	}
}

func runFlagsText(c FlagsText, o *engine.Obs) error {
	seen := map[string]int{}
	for f := -2; f <= 5; f++ {
		el := embertree.NewCommand(c.Cmd)
		el.GetContent().(*embertree.CommandContents).SetFieldFlags(embertree.FieldFlags(f))
		s := el.ToString()
		if err := clean(s, nil); err != nil {
			return err
		}
		if old, ok := seen[s]; ok {
			return fmt.Errorf("command %d renders the same with flags %d and %d", c.Cmd, old, f)
		}
		seen[s] = f
		if bagOf(s)[strconv.Itoa(c.Cmd)] < 2 {
			return fmt.Errorf("command %d: number or path is not shown: %q", c.Cmd, s)
		}
		if got := el.GetContent().(*embertree.CommandContents).GetFieldFlags(); int(got) != f {
			return fmt.Errorf("flags %d after rendering, want %d", got, f)
		}
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID: "C18", Title: "Textual renderings are total and faithful",
		Rule: "a tree counts if it has a field that is shown or at least three elements; values and commands count; cases are distinct",
		Subs: []engine.Sub{
			engine.NewSub("trees", 3000, 60000, genRenderCase, runRender),
			engine.NewSub("values", 6000, 120000, genValueText, runValueText),
			engine.NewEnum("commands", flagTexts, runFlagsText),
		},
	})
}
