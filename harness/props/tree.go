package props

import (
	"fmt"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"pgregory.net/rapid"
	"vpharness/ber"
	"vpharness/engine"
	"vpharness/glow"
)

// ElemCase is one element and a spelling for it.
type ElemCase struct {
	E     *glow.Elem
	Style glow.Style
}

// RootCase is one message and a spelling for it.
type RootCase struct {
	Es    []*glow.Elem
	Style glow.Style
}

// PartCase is one part of an element.
type PartCase struct {
	Kind  string // label, target, source, conn, tuple, invocation, contents
	L     *glow.Label
	Num   int32
	C     *glow.Conn
	T     *glow.Tuple
	ID    int32
	Args  []glow.Val
	CKind string
	Cont  *glow.Contents
	Style glow.Style
}

func describe(o *engine.Obs, es ...*glow.Elem) {
	n, d := 0, 0
	rich := false
	for _, e := range es {
		e.Walk(func(x *glow.Elem, depth int) {
			n++
			if depth > d {
				d = depth
			}
			o.Label("%s%s", map[bool]string{true: "qualified "}[x.Qual], x.Kind)
			if x.C == nil {
				o.Label("no contents")
			} else if len(x.C.V) > 0 || len(x.C.Ref)+len(x.C.Labels)+len(x.C.Args)+len(x.C.Res) > 0 || x.Kind == glow.Cmd {
				rich = true
			} else {
				o.Label("empty contents")
			}
			if len(x.Targets)+len(x.Sources)+len(x.Conns) > 0 {
				o.Label("matrix lists")
				rich = true
			}
		})
	}
	o.Label("depth %d", d)
	switch {
	case n == 1:
		o.Label("1 element")
	case n < 6:
		o.Label("2-5 elements")
	default:
		o.Label("6+ elements")
	}
	if n == 1 && !rich {
		o.Trivial()
	}
}

func genElemCase(settable bool) func(*rapid.T) ElemCase {
	return func(t *rapid.T) ElemCase {
		o := (&treeOpts{settable: settable, depth: rapid.IntRange(0, 3).Draw(t, "depth"), budget: 14, bare: true}).shape(t)
		e := genElem(t, o, o.depth, genID(t))
		if e.Kind != glow.Cmd && rapid.IntRange(0, 2).Draw(t, "qualified") == 0 {
			e.Qual = true
			e.Path = append(genOID(t, 0), e.Num)
		}
		c := ElemCase{E: e}
		if !settable {
			c.Style = genStyle(t)
		}
		return c
	}
}

func genRootCase(settable bool) func(*rapid.T) RootCase {
	return func(t *rapid.T) RootCase {
		o := (&treeOpts{settable: settable, depth: 3, budget: 25, bare: true}).shape(t)
		c := RootCase{Es: genTop(t, o)}
		for _, e := range c.Es {
			// deeper paths need their parents in the tree: C11
			if e.Qual {
				e.Path = e.Path[len(e.Path)-1:]
			}
		}
		if !settable {
			c.Style = genStyle(t)
		}
		return c
	}
}

func genPartCase(settable bool) func(*rapid.T) PartCase {
	return func(t *rapid.T) PartCase {
		c := PartCase{Kind: rapid.SampledFrom([]string{"label", "target", "source", "conn", "tuple", "invocation", "contents", "contents", "contents"}).Draw(t, "part")}
		switch c.Kind {
		case "label":
			c.L = &glow.Label{Base: genOID(t, 0), Desc: genText(t)}
		case "target", "source":
			c.Num = genI32(t)
		case "conn":
			x := genConn(t)
			c.C = &x
		case "tuple":
			x := genTuple(t)
			c.T = &x
		case "invocation":
			c.ID = genI32(t)
			n := genCount(t, 5, "args")
			for i := 0; i < n; i++ {
				c.Args = append(c.Args, genVal(t, anyVal...))
			}
		case "contents":
			c.CKind = rapid.SampledFrom([]string{glow.Node, glow.Param, glow.Matrix, glow.Func, glow.Cmd}).Draw(t, "ckind")
			c.Cont = genContents(t, c.CKind, settable)
		}
		if !settable {
			c.Style = genStyle(t)
		}
		return c
	}
}

func newContents(kind string) embertree.EmberContents {
	switch kind {
	case glow.Node:
		return embertree.NewNodeContents()
	case glow.Param:
		return embertree.NewParameterContents()
	case glow.Matrix:
		return embertree.NewDefaultMatrixContents()
	case glow.Func:
		return embertree.NewFunctionContents()
	case glow.Cmd:
		return embertree.NewCommandContents()
	}
	panic(kind)
}

func buildArgs(args []glow.Val) []*embertree.ContentParameter {
	var out []*embertree.ContentParameter
	for _, a := range args {
		cp := embertree.NewContentParameter()
		setObj(cp, a)
		out = append(out, cp)
	}
	return out
}

// encodePart encodes the part with the library.
func encodePart(c PartCase) ([]byte, error) {
	w := asn1.NewASNWriter()
	var msg string
	switch c.Kind {
	case "label":
		msg = emsg(embertree.NewLabel(roid(c.L.Base), string(c.L.Desc)).Encode(w))
	case "target":
		msg = emsg(embertree.NewTarget(c.Num).Encode(w))
	case "source":
		msg = emsg(embertree.NewSource(c.Num).Encode(w))
	case "conn":
		lc, err := buildConn(*c.C)
		if err != nil {
			return nil, err
		}
		msg = emsg(lc.Encode(w))
	case "tuple":
		msg = emsg(embertree.NewArgument(embertree.ParameterType(c.T.Type), string(c.T.Name)).Encode(w))
	case "invocation":
		msg = emsg(embertree.NewInvocation(int(c.ID), buildArgs(c.Args)).Encode(w))
	case "contents":
		x := newContents(c.CKind)
		fillContents(c.CKind, c.Cont, x)
		msg = emsg(x.Encode(w))
	}
	if msg != "<nil>" {
		return nil, fmt.Errorf("encoding: %s", msg)
	}
	return drain(w), nil
}

// node is the part as the independent encoder sees it.
func (c PartCase) node() *ber.Node {
	switch c.Kind {
	case "label":
		return glow.LabelNode(*c.L)
	case "target":
		return glow.SignalNode(14, c.Num)
	case "source":
		return glow.SignalNode(15, c.Num)
	case "conn":
		return glow.ConnNode(*c.C)
	case "tuple":
		return glow.TupleNode(*c.T)
	case "invocation":
		return glow.InvocationNode(int64(c.ID), c.Args, true)
	}
	return nil
}

func valsText(vs []glow.Val) string {
	s := ""
	for _, v := range vs {
		s += v.String() + "; "
	}
	return s
}

// conforms checks bytes the library wrote for the part with the independent decoder.
func (c PartCase) conforms(b []byte) error {
	n, err := parseAll(b)
	if err != nil {
		return fmt.Errorf("not well formed: %v", err)
	}
	differ := func(got, want string, err error) error {
		if err != nil {
			return err
		}
		if got != want {
			return fmt.Errorf("says %.300q, want %.300q", got, want)
		}
		return nil
	}
	switch c.Kind {
	case "label":
		l, err := glow.DecodeLabel(n)
		return differ(fmt.Sprintf("%v %q", roid(l.Base), l.Desc), fmt.Sprintf("%v %q", roid(c.L.Base), c.L.Desc), err)
	case "target":
		v, err := glow.DecodeSignal(n, 14)
		return differ(fmt.Sprint(v), fmt.Sprint(c.Num), err)
	case "source":
		v, err := glow.DecodeSignal(n, 15)
		return differ(fmt.Sprint(v), fmt.Sprint(c.Num), err)
	case "conn":
		x, err := glow.DecodeConn(n)
		return differ(modelConnText(x), modelConnText(*c.C), err)
	case "tuple":
		x, err := glow.DecodeTuple(n)
		return differ(fmt.Sprintf("%d %q", x.Type, x.Name), fmt.Sprintf("%d %q", c.T.Type, c.T.Name), err)
	case "invocation":
		id, args, err := glow.DecodeInvocation(n)
		return differ(fmt.Sprintf("%d %s", id, valsText(args)), fmt.Sprintf("%d %s", c.ID, valsText(c.Args)), err)
	case "contents":
		x, err := glow.DecodeContents(c.CKind, n)
		if err != nil {
			return err
		}
		return differ(x.Text(c.CKind, ""), c.Cont.Text(c.CKind, ""), nil)
	}
	return nil
}

// decodePart decodes bytes of the part with the library and compares with the model.
func (c PartCase) decodePart(b []byte) error {
	tail := []byte{2, 1, 7}
	r, overwrite := borrowed(b, tail...)
	fails := func(what, msg string) error { return fmt.Errorf("%s: %s", what, msg) }
	var again interface {
		Encode(*asn1.ASNWriter) errors.Error
	}
	switch c.Kind {
	case "label":
		l, e := embertree.DecodeLabel(r)
		if e != nil {
			return fails("DecodeLabel", emsg(e))
		}
		overwrite()
		if !sameOID(l.BasePath, c.L.Base) || l.Description != string(c.L.Desc) {
			return fmt.Errorf("label is %v %q, want %v %q", l.BasePath, l.Description, c.L.Base, c.L.Desc)
		}
		again = l
	case "target", "source":
		s, e := embertree.DecodeSignal(r)
		if e != nil {
			return fails("DecodeSignal", emsg(e))
		}
		overwrite()
		if err := checkSignals(c.Kind, []embertree.Signal{s}, []int32{c.Num}, c.Kind == "target"); err != nil {
			return err
		}
		again = s
	case "conn":
		x := &embertree.Connection{}
		if e := x.Decode(r); e != nil {
			return fails("Connection.Decode", emsg(e))
		}
		overwrite()
		if g, w := connText(x), modelConnText(*c.C); g != w {
			return fmt.Errorf("connection is %s, want %s", g, w)
		}
		again = x
	case "tuple":
		x := &embertree.TupleDescription{}
		if e := x.Decode(r); e != nil {
			return fails("TupleDescription.Decode", emsg(e))
		}
		overwrite()
		if int32(x.Type) != c.T.Type || x.Name != string(c.T.Name) {
			return fmt.Errorf("tuple is %+v, want %d %q", x, c.T.Type, c.T.Name)
		}
		again = x
	case "invocation":
		x := embertree.NewInvocation(-77, nil)
		if e := x.Decode(r); e != nil {
			return fails("Invocation.Decode", emsg(e))
		}
		overwrite()
		again = x
	case "contents":
		x := newContents(c.CKind)
		if e := x.Decode(r); e != nil {
			return fails("contents Decode", emsg(e))
		}
		overwrite()
		if err := checkContents(c.CKind, c.Cont, x); err != nil {
			return err
		}
		again = x
	}
	if r.Len() != len(tail) {
		return fmt.Errorf("%d bytes left after the %s, want %d", r.Len(), c.Kind, len(tail))
	}
	if i, e := r.ReadInt(); e != nil || i != 7 {
		return fmt.Errorf("the value after the %s reads as %d %s", c.Kind, i, emsg(e))
	}
	w := asn1.NewASNWriter()
	if e := again.Encode(w); e != nil {
		return fails("re-encoding", emsg(e))
	}
	if err := c.conforms(drain(w)); err != nil {
		return fmt.Errorf("re-encoded: %w", err)
	}
	// what is decoded once more replaces what was decoded before
	if used, ok := again.(interface {
		Decode(*asn1.ASNReader) errors.Error
	}); ok && c.Kind != "contents" {
		if e := used.Decode(asn1.NewASNReader(b)); e != nil {
			return fails("decoding into the same again", emsg(e))
		}
		w := asn1.NewASNWriter()
		if e := again.Encode(w); e != nil {
			return fails("encoding after the second decoding", emsg(e))
		}
		if err := c.conforms(drain(w)); err != nil {
			return fmt.Errorf("decoded twice into the same: %w", err)
		}
	}
	return nil
}

func labelPart(c PartCase, o *engine.Obs) {
	o.Label("%s", c.Kind)
	if c.Kind == "contents" {
		o.Label("%s contents", c.CKind)
		if c.CKind != glow.Cmd && len(c.Cont.V)+len(c.Cont.Args)+len(c.Cont.Res)+len(c.Cont.Labels)+len(c.Cont.Ref) == 0 {
			o.Trivial()
		}
	}
}

// ---- C06 ----

func elemRoundTrip(c ElemCase, o *engine.Obs) error {
	describe(o, c.E)
	el, err := build(c.E)
	if err != nil {
		return err
	}
	first, err := encodeElem(el)
	if err != nil {
		return err
	}
	b, err := encodeElem(el)
	if err != nil {
		return err
	}
	if len(first) != len(b) {
		return fmt.Errorf("encoded as %s, then as %s", hexs(first), hexs(b))
	}
	r, overwrite := borrowed(b)
	got, e := embertree.DecodeElement(r)
	if e != nil {
		return fmt.Errorf("decoding the element's own encoding %s: %s", hexs(b), emsg(e))
	}
	overwrite()
	if r.Len() != 0 {
		return fmt.Errorf("%d bytes left of the element's own encoding", r.Len())
	}
	if err := checkElem(c.E.Shallow(), got, true); err != nil {
		return fmt.Errorf("decoded from %s: %w", hexs(b), err)
	}
	return nil
}

func rootRoundTrip(c RootCase, o *engine.Obs) error {
	describe(o, c.Es...)
	root, err := buildRoot(c.Es)
	if err != nil {
		return err
	}
	first, err := encodeRoot(root)
	if err != nil {
		return err
	}
	b, err := encodeRoot(root)
	if err != nil {
		return err
	}
	if len(first) != len(b) {
		return fmt.Errorf("encoded as %s, then as %s", hexs(first), hexs(b))
	}
	tree := embertree.NewTree()
	r, overwrite := borrowed(b)
	if e := tree.Decode(r); e != nil {
		return fmt.Errorf("decoding the message's own encoding %s: %s", hexs(b), emsg(e))
	}
	overwrite()
	if r.Len() != 0 {
		return fmt.Errorf("%d bytes left of the message's own encoding", r.Len())
	}
	if err := checkTree(shallowAll(c.Es), tree); err != nil {
		return fmt.Errorf("decoded from %s: %w", hexs(b), err)
	}
	return nil
}

func shallowAll(es []*glow.Elem) []*glow.Elem {
	var out []*glow.Elem
	for _, e := range es {
		out = append(out, e.Shallow())
	}
	return out
}

func partRoundTrip(c PartCase, o *engine.Obs) error {
	labelPart(c, o)
	b, err := encodePart(c)
	if err != nil {
		return err
	}
	if err := c.decodePart(b); err != nil {
		return fmt.Errorf("decoding the %s's own encoding %s: %w", c.Kind, hexs(b), err)
	}
	return nil
}

// ---- C07 ----

func elemConforms(c ElemCase, o *engine.Obs) error {
	describe(o, c.E)
	el, err := build(c.E)
	if err != nil {
		return err
	}
	b, err := encodeElem(el)
	if err != nil {
		return err
	}
	got, err := glow.ParseElem(b)
	if err != nil {
		return fmt.Errorf("encoded as %s: %v", hexs(b), err)
	}
	if d := glow.Diff(got.Text(), c.E.Shallow().Text()); d != "" {
		return fmt.Errorf("encoded as %s: %s", hexs(b), d)
	}
	return nil
}

func rootConforms(c RootCase, o *engine.Obs) error {
	describe(o, c.Es...)
	root, err := buildRoot(c.Es)
	if err != nil {
		return err
	}
	b, err := encodeRoot(root)
	if err != nil {
		return err
	}
	got, err := glow.ParseRoot(b)
	if err != nil {
		return fmt.Errorf("encoded as %s: %v", hexs(b), err)
	}
	if d := glow.Diff(glow.RootText(got), glow.RootText(shallowAll(c.Es))); d != "" {
		return fmt.Errorf("encoded as %s: %s", hexs(b), d)
	}
	return nil
}

func partConforms(c PartCase, o *engine.Obs) error {
	labelPart(c, o)
	b, err := encodePart(c)
	if err != nil {
		return err
	}
	if err := c.conforms(b); err != nil {
		return fmt.Errorf("%s encoded as %s %w", c.Kind, hexs(b), err)
	}
	return nil
}

// ConstCase names one constant of the specification.
type ConstCase struct {
	Name string
	Got  int
	Want int
}

func enumConsts(yield func(ConstCase) bool) {
	for _, c := range []ConstCase{
		{"subscribe", embertree.COMMAND_SUBSCRIBE, 30}, {"unsubscribe", embertree.COMMAND_UNSUBSCRIBE, 31},
		{"getDirectory", embertree.COMMAND_GETDIRECTORY, 32}, {"invoke", embertree.COMMAND_INVOKE, 33},
		{"flags sparse", int(embertree.SparseFieldFlags), -2}, {"flags all", int(embertree.ALLFieldFlags), -1},
		{"flags default", int(embertree.DefaultFieldFlags), 0}, {"flags identifier", int(embertree.IdentifierFieldFlags), 1},
		{"flags description", int(embertree.DescriptionFieldFlags), 2}, {"flags tree", int(embertree.TreeFieldFlags), 3},
		{"flags value", int(embertree.ValueFieldFlags), 4}, {"flags connections", int(embertree.ConnectionsFieldFlags), 5},
		{"type null", int(embertree.ParameterTypeNull), 0}, {"type integer", int(embertree.ParameterTypeInteger), 1},
		{"type real", int(embertree.ParameterTypeReal), 2}, {"type string", int(embertree.ParameterTypeString), 3},
		{"type boolean", int(embertree.ParameterTypeBoolean), 4}, {"type trigger", int(embertree.ParameterTypeTrigger), 5},
		{"type enum", int(embertree.ParameterTypeEnum), 6}, {"type octets", int(embertree.ParameterTypeOcets), 7},
		{"access none", int(embertree.ParamaterAccessNone), 0}, {"access read", int(embertree.ParamaterAccessRead), 1},
		{"access write", int(embertree.ParamaterAccessWrite), 2}, {"access readWrite", int(embertree.ParamaterAccessReadWrite), 3},
		{"oneToN", int(embertree.OneToN), 0}, {"oneToOne", int(embertree.OneToOne), 1}, {"nToN", int(embertree.NToN), 2},
		{"linear", int(embertree.Linear), 0}, {"nonLinear", int(embertree.NonLinear), 1},
		{"absolute", int(embertree.Absolute), 0}, {"connect", int(embertree.Connect), 1}, {"disconnect", int(embertree.Disconnect), 2},
		{"tally", int(embertree.Tally), 0}, {"modified", int(embertree.Modified), 1}, {"pending", int(embertree.Pending), 2}, {"locked", int(embertree.Locked), 3},
		{"Parameter", int(embertree.ParameterApplication), 0x61}, {"Command", int(embertree.CommandApplication), 0x62}, {"Node", int(embertree.NodeApplication), 0x63},
		{"QualifiedParameter", int(embertree.QualifiedParameterApplication), 0x69}, {"QualifiedNode", int(embertree.QualifiedNodeApplication), 0x6a},
		{"Matrix", int(embertree.MatrixApplication), 0x6d}, {"Target", int(embertree.TargetApplication), 0x6e}, {"Source", int(embertree.SourceApplication), 0x6f},
		{"Connection", int(asn1.Application(embertree.ConnectionApplication)), 0x70}, {"QualifiedMatrix", int(embertree.QualifiedMatrixApplication), 0x71},
		{"Label", int(embertree.LabelApplication), 0x72}, {"Function", int(embertree.FunctionApplication), 0x73}, {"QualifiedFunction", int(embertree.QualifiedFunctionApplication), 0x74},
		{"TupleItemDescription", int(embertree.TupleDescriptionApplication), 0x75}, {"Invocation", int(embertree.InvocationApplication), 0x76},
	} {
		if !yield(c) {
			return
		}
	}
}

// constHolds looks the constant up again, so that a replay sees the current tree.
func constHolds(c ConstCase, o *engine.Obs) error {
	var err error
	enumConsts(func(x ConstCase) bool {
		if x.Name == c.Name && x.Got != x.Want {
			err = fmt.Errorf("constant %s is %d, the specification says %d", x.Name, x.Got, x.Want)
		}
		return true
	})
	return err
}

// ---- C08 ----

func elemSpelled(c ElemCase, o *engine.Obs) error {
	describe(o, c.E)
	b := c.Style.Elem(c.E)
	r, overwrite := borrowed(b)
	got, e := embertree.DecodeElement(r)
	if e != nil {
		return fmt.Errorf("decoding %s: %s", hexs(b), emsg(e))
	}
	overwrite()
	if r.Len() != 0 {
		return fmt.Errorf("%d bytes left of %s", r.Len(), hexs(b))
	}
	if err := checkElem(c.E, got, true); err != nil {
		return fmt.Errorf("decoded from %s: %w", hexs(b), err)
	}
	return nil
}

func rootSpelled(c RootCase, o *engine.Obs) error {
	describe(o, c.Es...)
	b := c.Style.Root(c.Es)
	r, overwrite := borrowed(b)
	tree := embertree.NewTree()
	if e := tree.Decode(r); e != nil {
		return fmt.Errorf("decoding %s: %s", hexs(b), emsg(e))
	}
	overwrite()
	if r.Len() != 0 {
		return fmt.Errorf("%d bytes left of %s", r.Len(), hexs(b))
	}
	if err := checkTree(c.Es, tree); err != nil {
		return fmt.Errorf("decoded from %s: %w", hexs(b), err)
	}
	return nil
}

func partSpelled(c PartCase, o *engine.Obs) error {
	labelPart(c, o)
	var b []byte
	if c.Kind == "contents" {
		b = c.Style.Contents(c.CKind, c.Cont)
	} else {
		b = c.Style.Tree(c.node())
	}
	if err := c.decodePart(b); err != nil {
		return fmt.Errorf("%s from %s: %w", c.Kind, hexs(b), err)
	}
	return nil
}

func init() {
	rule := "a case counts if it has more than one bare element, or any field, flag, reference or list, and differs from every earlier one"
	register(&engine.Property{
		ID: "C06", Title: "An Ember element survives being encoded and decoded", Rule: rule,
		Subs: []engine.Sub{
			engine.NewSub("element", 3000, 60000, genElemCase(true), elemRoundTrip),
			engine.NewSub("message", 2000, 40000, genRootCase(true), rootRoundTrip),
			engine.NewSub("parts", 8000, 150000, genPartCase(true), partRoundTrip),
		},
	})
	register(&engine.Property{
		ID: "C07", Title: "Encoded elements conform to the Glow schema", Rule: rule,
		Subs: []engine.Sub{
			engine.NewEnum("constants", enumConsts, constHolds),
			engine.NewSub("element", 3000, 60000, genElemCase(true), elemConforms),
			engine.NewSub("message", 2000, 40000, genRootCase(true), rootConforms),
			engine.NewSub("parts", 8000, 150000, genPartCase(true), partConforms),
		},
	})
	register(&engine.Property{
		ID: "C08", Title: "Any legal encoding of a Glow message decodes to what it says", Rule: rule,
		Subs: []engine.Sub{
			engine.NewSub("element", 4000, 80000, genElemCase(false), elemSpelled),
			engine.NewSub("message", 3000, 60000, genRootCase(false), rootSpelled),
			engine.NewSub("parts", 10000, 200000, genPartCase(false), partSpelled),
			engine.NewSub("bytes", 10000, 300000, genMangled, legalBytes),
		},
	})
}
