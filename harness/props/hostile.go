package props

import (
	"bytes"
	"fmt"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"pgregory.net/rapid"
	"time"
	"vpharness/ber"
	"vpharness/engine"
	"vpharness/glow"
)

// HostileCase feeds byte strings to one decoder.
type HostileCase struct {
	Target string // message, element, or a kind of part
	In     [][]byte
}

var hostileTargets = []string{"message", "message", "message", "element", "element", "label", "target", "conn", "tuple", "invocation",
	"node", "param", "matrix", "func", "cmd", "value", "labels", "targets", "sources", "connections", "signal"}

var tagDict = []byte{0, 1, 2, 3, 4, 5, 6, 9, 0x0c, 0x0d, 0x0a, 0x30, 0x31, 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x69, 0x6a, 0x6b, 0x6d, 0x6e, 0x6f,
	0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x7f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xaa, 0xab, 0xac, 0xb1, 0xb2, 0xb3, 0xbf, 0xc0, 0xe0, 0xff, 0x20, 0x80}

func legalNode(t *rapid.T, target string) *ber.Node {
	o := &treeOpts{depth: 3, budget: 10, bare: true}
	st := glow.Style{Order: rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "order")}
	part := func(kind string) *ber.Node {
		c := PartCase{Kind: kind}
		switch kind {
		case "label":
			c.L = &glow.Label{Base: genOID(t, 0), Desc: genText(t)}
		case "target", "source":
			c.Num = genI32(t)
		case "conn":
			x := genConn(t)
			c.C = &x
		case "tuple":
			x := genTuple(t)
			c.T = &x
		case "invocation":
			c.ID = genI32(t)
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "args"); i < n; i++ {
				c.Args = append(c.Args, genVal(t, anyVal...))
			}
		}
		return c.node()
	}
	list := func(ctx int, kind string) *ber.Node {
		seq := ber.C(ber.Seq)
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "n"); i < n; i++ {
			seq.Kids = append(seq.Kids, ber.C(ber.Ctx(0), part(kind)))
		}
		return ber.C(ber.Ctx(ctx), seq)
	}
	switch target {
	case "message":
		return st.RootTree(genTop(t, o))
	case "element":
		e := genElem(t, o, 3, genID(t))
		if e.Kind != glow.Cmd && rapid.Bool().Draw(t, "qualified") {
			e.Qual, e.Path = true, append(genOID(t, 0), e.Num)
		}
		return st.ElemTree(e)
	case glow.Node, glow.Param, glow.Matrix, glow.Func, glow.Cmd:
		return glow.ContentsNode(target, genContents(t, target, false), nil)
	case "value":
		return ber.C(ber.Ctx(2), genVal(t, append([]string{"oid"}, anyVal...)...).Node())
	case "labels":
		return list(10, "label")
	case "targets":
		return list(3, "target")
	case "sources":
		return list(4, "source")
	case "connections":
		return list(5, "conn")
	case "signal":
		return part(rapid.SampledFrom([]string{"target", "source"}).Draw(t, "sig"))
	}
	return part(target)
}

func mutateTree(t *rapid.T, root *ber.Node) {
	type site struct {
		n, p *ber.Node
		i    int
	}
	for k := rapid.IntRange(0, 4).Draw(t, "treeEdits"); k > 0; k-- {
		var all []site
		root.Walk(func(n, p *ber.Node, i int) { all = append(all, site{n, p, i}) })
		s := all[rapid.IntRange(0, len(all)-1).Draw(t, "site")]
		switch rapid.IntRange(0, 8).Draw(t, "treeEdit") {
		case 0:
			s.n.Tag = rapid.SampledFrom(tagDict).Draw(t, "tag")
		case 1:
			if s.p != nil {
				s.p.Kids = append(append([]*ber.Node{}, s.p.Kids[:s.i]...), s.p.Kids[s.i+1:]...)
			}
		case 2:
			if s.p != nil && len(all) < 3000 {
				s.p.Kids = append(s.p.Kids, s.n.Clone())
			}
		case 3:
			o := all[rapid.IntRange(0, len(all)-1).Draw(t, "other")]
			if len(all) < 3000 {
				*s.n = *o.n.Clone()
			}
		case 4:
			in := s.n.Clone()
			*s.n = *ber.C(rapid.SampledFrom(tagDict).Draw(t, "wrap")|0x20, in)
		case 5:
			s.n.Kids, s.n.Prim = nil, nil
		case 6:
			s.n.Prim = rapid.SliceOfN(byteGen, 0, 12).Draw(t, "prim")
		case 7:
			s.n.LenDelta = rapid.IntRange(-3, 200).Draw(t, "lenDelta")
		case 8:
			s.n.Raw = rapid.SliceOfN(byteGen, 1, 6).Draw(t, "raw")
		}
	}
}

var lenDict = [][]byte{{0x80}, {0x81, 0xff}, {0x82, 0xff, 0xff}, {0x83, 0xff, 0xff, 0xff}, {0x84, 0x7f, 0xff, 0xff, 0xff}, {0x84, 0xff, 0xff, 0xff, 0xff},
	{0x85, 1, 0, 0, 0, 0}, {0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff}, {0x7f}, {0}, {0x84, 0, 0, 0, 5}}

func mutateBytes(t *rapid.T, b []byte) []byte {
	for k := rapid.IntRange(0, 3).Draw(t, "byteEdits"); k > 0; k-- {
		p := rapid.IntRange(0, len(b)).Draw(t, "pos")
		switch rapid.IntRange(0, 5).Draw(t, "byteEdit") {
		case 0:
			if p < len(b) {
				b[p] = rapid.Byte().Draw(t, "byte")
			}
		case 1:
			b = append(append(append([]byte{}, b[:p]...), rapid.SliceOfN(byteGen, 1, 4).Draw(t, "ins")...), b[p:]...)
		case 2:
			e := p + rapid.IntRange(0, 5).Draw(t, "del")
			if e > len(b) {
				e = len(b)
			}
			b = append(append([]byte{}, b[:p]...), b[e:]...)
		case 3:
			b = append([]byte{}, b[:p]...)
		case 4:
			l := rapid.SampledFrom(lenDict).Draw(t, "len")
			e := p
			if e < len(b) {
				e++
			}
			b = append(append(append([]byte{}, b[:p]...), l...), b[e:]...)
		case 5:
			b = append(append(append([]byte{}, b[:p]...), 0, 0), b[p:]...)
		}
	}
	return b
}

func genSoup(t *rapid.T) []byte {
	var b []byte
	switch rapid.IntRange(0, 3).Draw(t, "soup") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
	case 1: // dictionary
		for i, n := 0, rapid.IntRange(0, 40).Draw(t, "words"); i < n; i++ {
			if rapid.Bool().Draw(t, "isTag") {
				b = append(b, rapid.SampledFrom(tagDict).Draw(t, "tag"))
			} else if rapid.IntRange(0, 3).Draw(t, "small") > 0 {
				b = append(b, byte(rapid.IntRange(0, 20).Draw(t, "l")))
			} else {
				b = append(b, rapid.SampledFrom(lenDict).Draw(t, "len")...)
			}
		}
		return b
	case 2: // deep nesting of children, open or closed
		depth := rapid.IntRange(1, 250).Draw(t, "depth")
		kind := rapid.SampledFrom([]byte{0x63, 0x61, 0x6d, 0x73, 0x62, 0x6a}).Draw(t, "kind")
		n := ber.C(kind, ber.C(ber.Ctx(0), ber.P(ber.Int, []byte{1})))
		for ; depth > 0; depth-- {
			n = ber.C(0x63, ber.C(ber.Ctx(0), ber.P(ber.Int, []byte{byte(depth)})), ber.C(ber.Ctx(2), ber.C(ber.App(4), ber.C(ber.Ctx(0), n))))
		}
		m := ber.C(ber.App(0), ber.C(ber.App(11), ber.C(ber.Ctx(0), n)))
		return m.Append(nil, &ber.Forms{Choices: rapid.SliceOfN(rapid.ByteRange(0, 5), 1, 5).Draw(t, "forms"), Cycle: true})
	}
	// one pattern over and over
	return Blob{Pat: rapid.SliceOfN(rapid.SampledFrom(tagDict), 1, 6).Draw(t, "pat"), N: rapid.IntRange(0, 3000).Draw(t, "n")}.Bytes()
}

func genHostile(t *rapid.T) HostileCase {
	c := HostileCase{Target: rapid.SampledFrom(hostileTargets).Draw(t, "target")}
	n := 1
	if c.Target == "message" {
		n = rapid.IntRange(1, 3).Draw(t, "msgs")
	}
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 5).Draw(t, "isSoup") == 0 {
			c.In = append(c.In, genSoup(t))
			continue
		}
		node := legalNode(t, c.Target)
		mutateTree(t, node)
		b := genStyle(t).Tree(node)
		c.In = append(c.In, mutateBytes(t, b))
	}
	return c
}

// hostileDecode decodes bytes as the target; it returns what came out.
func hostileDecode(target string, b []byte) (out interface {
	Encode(*asn1.ASNWriter) errors.Error
}, e errors.Error) {
	r := asn1.NewASNReader(b)
	switch target {
	case "element":
		el, e := embertree.DecodeElement(r)
		if el == nil {
			return nil, e
		}
		return el, e
	case "label":
		l, e := embertree.DecodeLabel(r)
		return l, e
	case "target", "signal":
		s, e := embertree.DecodeSignal(r)
		if s == nil {
			return nil, e
		}
		return s, e
	case "conn":
		x := &embertree.Connection{}
		return x, x.Decode(r)
	case "tuple":
		x := &embertree.TupleDescription{}
		return x, x.Decode(r)
	case "invocation":
		x := embertree.NewInvocation(1, nil)
		return x, x.Decode(r)
	case glow.Node, glow.Param, glow.Matrix, glow.Func, glow.Cmd:
		x := newContents(target)
		return x, x.Decode(r)
	case "value":
		v, e := embertree.DecodeValue(r, 2)
		if v != nil && len(b) < 5000 {
			_ = v.ToString()
		}
		return nil, e
	case "labels":
		x := newContents(glow.Matrix).(*embertree.MatrixContent)
		return x, x.DecodeLabels(r)
	case "targets", "sources", "connections":
		m, _ := embertree.NewMatrix(1, embertree.OneToN, embertree.Linear)
		switch target {
		case "targets":
			return m, m.DecodeTargets(r)
		case "sources":
			return m, m.DecodeSources(r)
		}
		return m, m.DecodeConnections(r)
	}
	panic(target)
}

var goodMessage = glow.Style{}.Root([]*glow.Elem{{Kind: glow.Node, Num: 1234567, C: &glow.Contents{V: map[int]glow.Val{0: {T: "str", S: []byte("ok")}}}}})

func useTree(root *embertree.RootElement) {
	_ = root.ToString()
	var visit func(e *embertree.Element)
	visit = func(e *embertree.Element) {
		_ = e.GetPath()
		_, _ = e.GetDirectoryMsg(nil)
		for _, k := range e.Children {
			visit(k)
		}
	}
	for _, e := range root.RootElementCollection {
		visit(e)
	}
	_ = root.Encode(asn1.NewASNWriter())
}

func hostile(c HostileCase, o *engine.Obs) error {
	o.Label("%s", c.Target)
	budget := func(b []byte) uint64 { return 1<<20 + 2000*uint64(len(b)) }
	check := func(b []byte, used uint64) error {
		if used > budget(b) {
			return fmt.Errorf("decoding %d bytes allocated %d bytes", len(b), used)
		}
		return nil
	}
	if c.Target != "message" {
		b := c.In[0]
		var out interface {
			Encode(*asn1.ASNWriter) errors.Error
		}
		var e errors.Error
		used := engine.AllocDuring(func() { out, e = hostileDecode(c.Target, b) })
		if err := check(b, used); err != nil {
			return err
		}
		if e == nil {
			o.Label("accepted")
		}
		if out != nil && e == nil {
			if s, ok := out.(interface{ ToString() string }); ok {
				_ = s.ToString()
			}
			_ = out.Encode(asn1.NewASNWriter())
		}
		if len(b) < 2 {
			o.Trivial()
		}
		return nil
	}
	tree := embertree.NewTree()
	for _, b := range c.In {
		var e errors.Error
		used := engine.AllocDuring(func() { e = tree.Decode(asn1.NewASNReader(b)) })
		if err := check(b, used); err != nil {
			return err
		}
		if e == nil {
			o.Label("accepted")
		} else {
			o.Label("rejected")
		}
		useTree(tree)
		if len(b) < 2 {
			o.Trivial()
		}
	}
	if tree.GetElementByNumber(1234567) == nil {
		if e := tree.Decode(asn1.NewASNReader(goodMessage)); e != nil {
			return fmt.Errorf("a good message afterwards is rejected: %s", emsg(e))
		}
		el := tree.GetElementByNumber(1234567)
		if el == nil {
			return fmt.Errorf("a good message afterwards does not add its element")
		}
		if n, ok := el.GetContent().(*embertree.NodeContents); !ok {
			return fmt.Errorf("a good message afterwards leaves contents %T", el.GetContent())
		} else if s, e := n.GetIdentifier(); e != nil || s != "ok" {
			return fmt.Errorf("a good message afterwards leaves identifier %q", s)
		}
	}
	return nil
}

// ---- C10 ----

// CutCase is a legal message or part to be cut short.
type CutCase struct {
	Root *RootCase
	Elem *ElemCase
	Part *PartCase
	// Seed spreads the cut points of long messages.
	Seed int
}

func genCut(t *rapid.T) CutCase {
	c := CutCase{Seed: rapid.IntRange(0, 1000).Draw(t, "cutSeed")}
	switch rapid.IntRange(0, 3).Draw(t, "what") {
	case 0:
		x := genElemCase(false)(t)
		c.Elem = &x
	case 1:
		x := genPartCase(false)(t)
		c.Part = &x
	default:
		x := genRootCase(false)(t)
		c.Root = &x
	}
	return c
}

func (c CutCase) bytes() ([]byte, string) {
	switch {
	case c.Root != nil:
		return c.Root.Style.Root(c.Root.Es), "message"
	case c.Elem != nil:
		return c.Elem.Style.Elem(c.Elem.E), "element"
	}
	if c.Part.Kind == "contents" {
		return c.Part.Style.Contents(c.Part.CKind, c.Part.Cont), c.Part.CKind
	}
	target := c.Part.Kind
	if target == "source" {
		target = "signal"
	}
	return c.Part.Style.Tree(c.Part.node()), target
}

// outcome decodes and summarises: accepted, and what was understood (if it can be told).
func outcome(target string, b []byte) (ok bool, text string) {
	w := asn1.NewASNWriter()
	if target == "message" {
		tree := embertree.NewTree()
		if e := tree.Decode(asn1.NewASNReader(b)); e != nil {
			return false, ""
		}
		if e := tree.Encode(w); e != nil {
			return true, ""
		}
		es, err := glow.ParseRoot(drain(w))
		if err != nil {
			return true, ""
		}
		return true, glow.RootText(es)
	}
	out, e := hostileDecode(target, b)
	if e != nil {
		return false, ""
	}
	if out == nil || out.Encode(w) != nil {
		return true, ""
	}
	enc := drain(w)
	if target == "element" {
		el, err := glow.ParseElem(enc)
		if err != nil {
			return true, ""
		}
		return true, el.Text()
	}
	return true, hexs(enc)
}

// lastByte is the finding that a missing last byte is read as 0.
const lastByte = "last-byte-missing"

func cutShort(c CutCase, o *engine.Obs) error {
	b, target := c.bytes()
	o.Label("%s", target)
	full, err := parseAll(b)
	if err != nil {
		return fmt.Errorf("generator: %v", err)
	}
	step := 1
	if len(b) > 120 {
		step = len(b)/100 + 1
	}
	if len(b) < 4 {
		o.Trivial()
	}
	try := func(k int) error {
		if ok, got := outcome(target, b[:k]); ok {
			if _, listed := engine.Listed("C10", lastByte); listed && k == len(b)-1 && full.Constructed() && !full.Indef {
				// known finding: one missing byte reads as 0
				o.Label("one missing byte taken as 0")
				if ok, want := outcome(target, append(append([]byte{}, b[:k]...), 0)); !ok || got != want {
					return fmt.Errorf("the %s %s without its last byte is accepted and gives %q; with a 0 there it gives %v %q", target, hexs(b), got, ok, want)
				}
				return nil
			}
			return fmt.Errorf("the first %d of %d bytes of a %s are accepted: %s", k, len(b), target, hexs(b))
		}
		return nil
	}
	for k := c.Seed % step; k < len(b); k += step {
		if err := try(k); err != nil {
			return err
		}
	}
	for k := len(b) - 6; k < len(b); k++ {
		if k >= 0 {
			if err := try(k); err != nil {
				return err
			}
		}
	}
	return nil
}

// EditCase is a legal message and one edit that breaks the schema.
type EditCase struct {
	Root *RootCase
	Elem *ElemCase
	// Edit picks the kind of edit, Site the place, Arg the variant.
	Edit, Site, Arg int
}

func genEdit(t *rapid.T) EditCase {
	c := EditCase{Edit: rapid.IntRange(0, 1000).Draw(t, "edit"), Site: rapid.IntRange(0, 1000).Draw(t, "site"), Arg: rapid.IntRange(0, 255).Draw(t, "arg")}
	if rapid.IntRange(0, 2).Draw(t, "what") == 0 {
		x := genElemCase(false)(t)
		c.Elem = &x
	} else {
		x := genRootCase(false)(t)
		c.Root = &x
	}
	return c
}

type edit struct {
	label string
	apply func(arg int)
}

// editor collects the schema-breaking edits of a legal tree.
type editor struct{ all []edit }

func (ed *editor) add(label string, f func(arg int)) { ed.all = append(ed.all, edit{label, f}) }

func other(arg int, not ...byte) byte {
	for {
		b := tagDict[arg%len(tagDict)]
		if !bytes.Contains(not, []byte{b}) && b != 0 {
			return b
		}
		arg++
	}
}

func (ed *editor) retag(label string, n *ber.Node, not ...byte) {
	ed.add(label, func(arg int) {
		// keep the form of the encoding, so that only the tag is wrong
		t := other(arg, append(not, n.Tag)...)
		if n.Constructed() {
			t |= 0x20
		} else {
			t &^= 0x20
		}
		for bytes.Contains(append(not, n.Tag), []byte{t}) {
			t ^= 0x07
		}
		n.Tag = t
	})
}

func (ed *editor) remove(label string, p *ber.Node, i int) {
	ed.add(label, func(int) { p.Kids = append(append([]*ber.Node{}, p.Kids[:i]...), p.Kids[i+1:]...) })
}

func (ed *editor) extra(label string, n *ber.Node) {
	ed.add(label, func(arg int) {
		n.Kids = append(n.Kids, []*ber.Node{ber.P(ber.Int, []byte{5}), ber.P(ber.UTF8, []byte("x")), ber.C(ber.Ctx(0), ber.P(ber.Int, []byte{1})), ber.C(ber.Set), ber.C(ber.Ctx(20)), ber.P(ber.Null, nil)}[arg%6])
	})
}

// unknown adds a field the schema does not have, of a number from first on.
func (ed *editor) unknown(label string, n *ber.Node, first int) {
	ed.add(label, func(arg int) {
		f := ber.C(ber.Ctx(first + arg/4%(31-first)))
		switch arg % 4 {
		case 0:
			f.Kids = []*ber.Node{ber.P(ber.Int, []byte{0})}
		case 1:
			f.Kids = []*ber.Node{ber.P(ber.UTF8, []byte("x"))}
		case 2:
			f.Kids = []*ber.Node{ber.C(ber.Seq)}
		}
		// not in place of the first field, which is mandatory in some
		k := min(len(n.Kids), 1+arg/100%4)
		n.Kids = append(append(append([]*ber.Node{}, n.Kids[:k]...), f), n.Kids[k:]...)
	})
}

func (ed *editor) badInt(label string, n *ber.Node) {
	ed.retag(label+" is no integer", n)
	ed.add(label+" is empty", func(int) { n.Prim = nil })
	ed.add(label+" has more than 32 bits", func(arg int) {
		low := int64(int8(arg))
		n.Prim = ber.IntBytes([]int64{1<<32 + low, -1<<32 + low, 1<<40 + low, 1<<62 + low, 1<<31 + 5, -1<<31 - 5}[arg%6])
	})
}

// badPath collects the edits of a path that may be empty.
func (ed *editor) badPath(label string, n *ber.Node) {
	ed.retag(label+" is no path", n)
	ed.add("unfinished "+label, func(int) { n.Prim = append(append([]byte{}, n.Prim...), 0x81) })
	ed.add("oversized component in "+label, func(int) { n.Prim = append([]byte{0x9f, 0xff, 0xff, 0xff, 0x7f}, n.Prim...) })
}

func (ed *editor) wrapped(label string, w *ber.Node) *ber.Node {
	ed.extra("extra value in "+label, w)
	ed.add("empty "+label, func(int) { w.Kids = nil })
	return w.Kids[0]
}

func (ed *editor) list(what string, w *ber.Node, item func(n *ber.Node)) {
	seq := ed.wrapped(what+" container", w)
	ed.retag(what+" container is no SEQUENCE", seq)
	for _, ent := range seq.Kids {
		ed.retag(what+" entry tag", ent)
		it := ed.wrapped(what+" entry", ent)
		ed.retag(what+" item kind", it)
		item(it)
	}
}

func (ed *editor) contents(kind string, n *ber.Node) {
	if kind == glow.Cmd {
		ed.badInt("field flags", n)
		return
	}
	ed.retag("contents are no SET", n)
	for _, f := range n.Kids {
		k := int(f.Tag & 0x1f)
		switch {
		case kind == glow.Matrix && k == 10:
			ed.list("labels", f, func(it *ber.Node) {
				ed.unknown("unknown label field", it, 2)
				ed.remove("label without path", it, 0)
				ed.remove("label without description", it, 1)
				ed.badPath("label path", it.Kids[0].Kids[0])
				ed.retag("label description is no string", it.Kids[1].Kids[0])
			})
		case kind == glow.Matrix && (k == 2 || k == 3):
			v := f.Kids[0]
			ed.add("impossible matrix type or mode", func(arg int) {
				v.Prim = ber.IntBytes(int64([]int{3, 300, -1, 256, 65536, 7, 1 << 32, 1<<40 + 1}[arg%8]))
			})
		case kind == glow.Func && k >= 2:
			ed.list("tuples", f, func(it *ber.Node) {
				ed.unknown("unknown tuple field", it, 2)
				ed.retag("tuple field tag", it.Kids[0], ber.Ctx(0), ber.Ctx(1))
				if len(it.Kids) > 1 {
					ed.retag("tuple name is no string", it.Kids[1].Kids[0])
				}
				ed.badInt("tuple type", it.Kids[0].Kids[0])
				v := it.Kids[0].Kids[0]
				ed.add("impossible tuple type", func(arg int) { v.Prim = ber.IntBytes(int64([]int{256, -1, 1 << 20, -300}[arg%4])) })
			})
		case k == map[string]int{glow.Node: 5, glow.Param: 18, glow.Matrix: 12, glow.Func: -1}[kind]:
			ed.badPath("template reference", f.Kids[0])
			ed.extra("extra value in template reference", f)
		default:
			v := f.Kids[0]
			ed.extra("extra value in field", f)
			ed.add("value of impossible form", func(arg int) {
				switch arg % 5 {
				case 0:
					*v = *ber.P(ber.Int, nil)
				case 1:
					*v = *ber.P(ber.Bool, []byte{1, 1})
				case 2:
					*v = *ber.P(ber.Int, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9})
				case 3:
					*v = *ber.P(ber.RelOID, []byte{0x81})
				case 4:
					*v = *ber.P(ber.Real, []byte{0x80})
				}
			})
			ed.add("value of unknown type", func(arg int) { v.Tag = []byte{6, 7, 8, 0x0b, 0x0e, 0x41, 0x85}[arg%7] })
		}
	}
}

func (ed *editor) elem(n *ber.Node) {
	ed.add("unknown element kind", func(arg int) {
		n.Tag = []byte{0x60, 0x64, 0x65, 0x66, 0x67, 0x68, 0x6b, 0x6c, 0x6e, 0x6f, 0x70, 0x72, 0x75, 0x76, 0x77, 0x7e, 0x30, 0x31, 0xa3, 0x23}[arg%20]
	})
	kind, qual := glow.KindOf(n.Tag)
	num := n.Kids[0]
	ed.unknown("unknown element field", n, 6)
	ed.remove("element without number", n, 0)
	ed.retag("number wrapper tag", num)
	v := ed.wrapped("number wrapper", num)
	if qual {
		ed.retag("path is no path", v)
		ed.add("empty path", func(int) { v.Prim = nil })
		ed.add("unfinished path", func(int) { v.Prim = append(append([]byte{}, v.Prim...), 0x81) })
		ed.add("oversized path component", func(int) { v.Prim = append([]byte{0x9f, 0xff, 0xff, 0xff, 0x7f}, v.Prim...) })
	} else {
		ed.badInt("number", v)
	}
	if kind != glow.Matrix {
		ed.add("matrix list on another kind", func(arg int) {
			k := 3 + arg%3
			n.Kids = append(n.Kids, ber.C(ber.Ctx(k), ber.C(ber.Seq)))
		})
	}
	for _, f := range n.Kids[1:] {
		switch f.Tag & 0x1f {
		case 1:
			ed.contents(kind, ed.wrapped("contents wrapper", f))
		case 2:
			col := ed.wrapped("children wrapper", f)
			ed.retag("children container tag", col)
			for _, ent := range col.Kids {
				ed.retag("child entry tag", ent)
				ed.elem(ed.wrapped("child entry", ent))
			}
		case 3, 4:
			app := byte(11) + f.Tag&0x1f
			ed.list("signals", f, func(it *ber.Node) {
				ed.remove("signal without number", it, 0)
				ed.retag("signal number wrapper tag", it.Kids[0])
				ed.badInt("signal number", it.Kids[0].Kids[0])
				ed.add("signal of the other kind", func(int) { it.Tag = ber.App(29 - int(app)) })
				ed.extra("extra value in signal", it)
				ed.unknown("unknown signal field", it, 1)
			})
		case 5:
			ed.list("connections", f, func(it *ber.Node) {
				ed.remove("connection without target", it, 0)
				ed.retag("connection target wrapper tag", it.Kids[0])
				ed.badInt("connection target", it.Kids[0].Kids[0])
				ed.unknown("unknown connection field", it, 4)
				for _, cf := range it.Kids[1:] {
					v := cf.Kids[0]
					switch cf.Tag & 0x1f {
					case 1:
						ed.badPath("connection sources", v)
					case 2, 3:
						max := int64(cf.Tag&0x1f) + 1
						ed.badInt("operation or disposition", v)
						ed.add("impossible operation or disposition", func(arg int) {
							v.Prim = ber.IntBytes([]int64{max, max + 1, -1, 255, 256, 257, -255, 65536, 1 << 30, 1 << 32, 1<<32 + 1}[arg%11])
						})
					}
				}
			})
		}
	}
}

func (ed *editor) lengths(root *ber.Node) {
	root.Walk(func(n, p *ber.Node, i int) {
		if p != nil && i == len(p.Kids)-1 {
			ed.add("length beyond the container", func(arg int) {
				p.Definite, n.Definite = true, true
				n.LenDelta = []int{1, 2, 5, 300, 70000}[arg%5]
			})
		}
		if n.Constructed() {
			ed.add("end marker in definite container", func(int) { n.Definite, n.Raw = true, []byte{0, 0} })
			ed.add("end marker spoilt", func(arg int) { n.Indefinite, n.EndMark = true, []byte{0, []byte{1, 2, 0x80, 0xff}[arg%4]} })
			ed.add("zero tag among the content", func(arg int) {
				n.Indefinite = true
				k := arg / 4 % (len(n.Kids) + 1)
				n.Kids = append(append(append([]*ber.Node{}, n.Kids[:k]...), ber.P(0, []byte{1, 2, 3, 4}[:1+arg%4])), n.Kids[k:]...)
			})
		}
	})
}

func (c EditCase) build() ([]byte, string, string) {
	var n *ber.Node
	var ed editor
	target := "message"
	var st glow.Style
	if c.Elem != nil {
		st, target = c.Elem.Style, "element"
		n = st.ElemTree(c.Elem.E)
		ed.elem(n)
	} else {
		st = c.Root.Style
		n = st.RootTree(c.Root.Es)
		ed.retag("root tag", n)
		col := n.Kids[0]
		for _, ent := range col.Kids {
			ed.retag("root entry tag", ent)
			ed.elem(ed.wrapped("root entry", ent))
		}
	}
	ed.lengths(n)
	byLabel := map[string][]edit{}
	var labels []string
	for _, e := range ed.all {
		if byLabel[e.label] == nil {
			labels = append(labels, e.label)
		}
		byLabel[e.label] = append(byLabel[e.label], e)
	}
	l := labels[c.Edit%len(labels)]
	es := byLabel[l]
	es[c.Site%len(es)].apply(c.Arg)
	return st.Tree(n), target, l
}

func schemaBreak(c EditCase, o *engine.Obs) error {
	b, target, label := c.build()
	o.Label("%s", label)
	if ok, got := outcome(target, b); ok {
		return fmt.Errorf("%s: a %s with this defect is accepted and read as %q: %s", label, target, got, hexs(b))
	}
	return nil
}

func init() {
	lim := engine.Limits{CPU: 4 * time.Second, Wall: 120 * time.Second, Idle: true}
	register(&engine.Property{
		ID: "C09", Title: "No input bytes crash, hang or exhaust the decoders",
		Rule: "a case counts if its input has at least two bytes and differs from every earlier one",
		Subs: []engine.Sub{
			engine.NewSubLimits("hostile bytes", 40000, 1500000, lim, genHostile, hostile),
			engine.NewSubLimits("scale", 600, 20000, lim, genScale, scale),
		},
	})
	register(&engine.Property{
		ID: "C10", Title: "Incomplete or schema-violating messages are rejected",
		Rule: "a cut case counts if the message has at least four bytes (every cut point of it is tried, or about 100 of them); every edit case counts; cases are distinct",
		Subs: []engine.Sub{
			engine.NewSub("cut short", 1500, 40000, genCut, cutShort),
			engine.NewSub("schema edits", 30000, 400000, genEdit, schemaBreak),
		},
		Known: []engine.Known{{
			ID: lastByte,
			Shows: func() bool {
				b := goodMessage[:len(goodMessage)-1]
				return embertree.NewTree().Decode(asn1.NewASNReader(b)) == nil
			},
		}},
	})
}
