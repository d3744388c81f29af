package props

import (
	"fmt"
	"math"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"vpharness/ber"
	"vpharness/glow"
)

// ---- from the model to the library, through its public API ----

func roid(p []int32) asn1.RelativeOID { return append(asn1.RelativeOID{}, p...) }

func setObj(cp *embertree.ContentParameter, v glow.Val) {
	switch v.T {
	case "str":
		cp.SetString(string(v.S))
	case "bits":
		cp.SetBuffer(append([]byte{}, v.S...))
	case "int":
		cp.SetInt(v.I)
	case "bool":
		cp.SetBool(v.B)
	case "real":
		cp.SetReal(math.Float64frombits(v.R))
	case "oid":
		cp.SetRelativeOID(roid(v.O))
	}
}

func tuples(ts []glow.Tuple) []*embertree.TupleDescription {
	var out []*embertree.TupleDescription
	for _, t := range ts {
		out = append(out, embertree.NewArgument(embertree.ParameterType(t.Type), string(t.Name)))
	}
	return out
}

func fillContents(kind string, c *glow.Contents, x any) {
	str := func(k int, f func(string)) {
		if v, ok := c.V[k]; ok {
			f(string(v.S))
		}
	}
	i64 := func(k int, f func(int64)) {
		if v, ok := c.V[k]; ok {
			f(v.I)
		}
	}
	num := func(k int, f func(int) errors.Error) {
		if v, ok := c.V[k]; ok {
			f(int(v.I))
		}
	}
	boo := func(k int, f func(bool)) {
		if v, ok := c.V[k]; ok {
			f(v.B)
		}
	}
	switch kind {
	case glow.Node:
		n := x.(*embertree.NodeContents)
		str(0, n.SetIdentifier)
		str(1, n.SetDescription)
		boo(2, n.SetIsRoot)
		boo(3, n.SetIsOnline)
		str(4, n.SetSchemaIdentifiers)
		if len(c.Ref) > 0 {
			n.SetTemplateReference(roid(c.Ref))
		}
	case glow.Param:
		p := x.(*embertree.ParameterContents)
		str(0, p.SetIdentifier)
		str(1, p.SetDescription)
		for k, obj := range map[int]*embertree.ContentParameter{2: p.GetValueObject(), 3: p.GetMinimumObject(), 4: p.GetMaximumObject(), 12: p.GetDefaultObject()} {
			if v, ok := c.V[k]; ok {
				setObj(obj, v)
			}
		}
		str(5, p.SetAccess)
		str(6, p.SetFormat)
		str(7, p.SetEnumeration)
		i64(8, p.SetFactor)
		boo(9, p.SetOnline)
		str(10, p.SetFormula)
		i64(11, p.SetStep)
		str(13, p.SetType)
		i64(14, p.SetStreanIdentifier)
	case glow.Matrix:
		m := x.(*embertree.MatrixContent)
		str(0, m.SetIdentifier)
		str(1, m.SetDescription)
		if v, ok := c.V[2]; ok {
			m.SetType(embertree.MatrixType(v.I))
		}
		if v, ok := c.V[3]; ok {
			m.SetMode(embertree.MatrixMode(v.I))
		}
		num(4, m.SetTargetCount)
		num(5, m.SetSourceCount)
		num(6, m.SetMaxTotalConnects)
		num(7, m.SetMaxConnectsPerTarget)
		if v, ok := c.V[8]; ok {
			m.SetParameterLocation(roid(v.O))
		}
		num(9, m.SetGainParameterNumber)
		str(11, func(s string) { m.SetSchemaIdentifier(s) })
	case glow.Func:
		f := x.(*embertree.FunctionContents)
		str(0, f.SetIdentifier)
		str(1, f.SetDescription)
		if len(c.Args) > 0 || c.ShowEmpty {
			f.SetArguments(tuples(c.Args))
		}
		if len(c.Res) > 0 || c.ShowEmpty {
			f.SetResult(tuples(c.Res))
		}
	case glow.Cmd:
		x.(*embertree.CommandContents).SetFieldFlags(embertree.FieldFlags(c.Flags))
	}
}

func buildConn(c glow.Conn) (*embertree.Connection, error) {
	lc := &embertree.Connection{Target: c.Target, Sources: append([]int32{}, c.Sources...)}
	if e := lc.SetOperation(int(c.Op)); e != nil {
		return nil, fmt.Errorf("SetOperation(%d): %s", c.Op, emsg(e))
	}
	if e := lc.SetDisposition(int(c.Disp)); e != nil {
		return nil, fmt.Errorf("SetDisposition(%d): %s", c.Disp, emsg(e))
	}
	return lc, nil
}

func buildSignals(nums []int32, target bool) []embertree.Signal {
	var out []embertree.Signal
	for _, n := range nums {
		if target {
			out = append(out, embertree.NewTarget(n))
		} else {
			out = append(out, embertree.NewSource(n))
		}
	}
	return out
}

// build makes the library's element for a settable model element.
func build(m *glow.Elem) (*embertree.Element, error) {
	var el *embertree.Element
	var e errors.Error
	switch {
	case m.Kind == glow.Matrix:
		mt, mm := embertree.MatrixType(0), embertree.MatrixMode(0)
		if m.C != nil {
			mt, mm = embertree.MatrixType(m.C.V[2].I), embertree.MatrixMode(m.C.V[3].I)
		}
		if m.Qual {
			el = embertree.NewQualifiedMatrix(roid(m.Path), mt, mm)
			if el == nil {
				return nil, fmt.Errorf("NewQualifiedMatrix(%v) gave nil", m.Path)
			}
		} else if el, e = embertree.NewMatrix(int(m.Num), mt, mm); e != nil {
			return nil, fmt.Errorf("NewMatrix: %s", emsg(e))
		}
		if m.C != nil {
			mc, e := embertree.NewMatrixContent(mt, mm)
			if e != nil {
				return nil, fmt.Errorf("NewMatrixContent: %s", emsg(e))
			}
			fillContents(m.Kind, m.C, mc)
			el.SetContents(mc)
		}
		if len(m.Targets) > 0 {
			if e := el.SetTargets(buildSignals(m.Targets, true)); e != nil {
				return nil, fmt.Errorf("SetTargets: %s", emsg(e))
			}
		}
		if len(m.Sources) > 0 {
			if e := el.SetSources(buildSignals(m.Sources, false)); e != nil {
				return nil, fmt.Errorf("SetSources: %s", emsg(e))
			}
		}
		if len(m.Conns) > 0 {
			var cs []*embertree.Connection
			for _, c := range m.Conns {
				lc, err := buildConn(c)
				if err != nil {
					return nil, err
				}
				cs = append(cs, lc)
			}
			if e := el.SetConnections(cs); e != nil {
				return nil, fmt.Errorf("SetConnections: %s", emsg(e))
			}
		}
	case m.Kind == glow.Node && m.Qual:
		el = embertree.NewQualifiedNode(roid(m.Path))
	case m.Kind == glow.Node:
		el = embertree.NewNode(int(m.Num))
	case m.Kind == glow.Param && m.Qual:
		el = embertree.NewQualifiedParameter(roid(m.Path))
	case m.Kind == glow.Param:
		el = embertree.NewParameter(int(m.Num))
	case m.Kind == glow.Func && m.Qual:
		el = embertree.NewQualifiedElement(embertree.QualifiedFunctionApplication, roid(m.Path), embertree.NewFunctionContents)
	case m.Kind == glow.Func:
		el = embertree.NewFunction(int(m.Num))
	case m.Kind == glow.Cmd:
		el = embertree.NewCommand(int(m.Num))
	}
	if el == nil {
		return nil, fmt.Errorf("constructor of %s gave nil", m.Kind)
	}
	if m.C != nil && m.Kind != glow.Matrix {
		x := el.CreateContent()
		if x == nil {
			return nil, fmt.Errorf("CreateContent of %s gave nil", m.Kind)
		}
		fillContents(m.Kind, m.C, x)
	}
	for _, k := range m.Kids {
		c, err := build(k)
		if err != nil {
			return nil, err
		}
		if e := el.AddChild(c); e != nil {
			return nil, fmt.Errorf("AddChild: %s", emsg(e))
		}
	}
	return el, nil
}

func buildRoot(es []*glow.Elem) (*embertree.RootElement, error) {
	root := embertree.NewTree()
	for _, m := range es {
		el, err := build(m)
		if err != nil {
			return nil, err
		}
		root.AddElement(el)
	}
	return root, nil
}

func encodeElem(el *embertree.Element) ([]byte, error) {
	w := asn1.NewASNWriter()
	if e := el.Encode(w); e != nil {
		return nil, fmt.Errorf("Encode: %s", emsg(e))
	}
	return drain(w), nil
}

func encodeRoot(root *embertree.RootElement) ([]byte, error) {
	w := asn1.NewASNWriter()
	if e := root.Encode(w); e != nil {
		return nil, fmt.Errorf("Encode: %s", emsg(e))
	}
	return drain(w), nil
}

// ---- checking a library element against the model ----

func checkObj(name string, cp *embertree.ContentParameter, v glow.Val, ok bool) error {
	if cp == nil {
		return fmt.Errorf("%s object is nil", name)
	}
	if cp.IsSet() != ok {
		return fmt.Errorf("%s: IsSet %v, want %v", name, cp.IsSet(), ok)
	}
	if !ok {
		return nil
	}
	got, err := objVal(cp)
	if err != nil {
		return fmt.Errorf("%s: %w", name, err)
	}
	if got.String() != v.String() {
		return fmt.Errorf("%s is %.200s, want %.200s", name, got, v)
	}
	return nil
}

// objVal reads a content parameter through its typed getters; exactly the
// getter of its type may succeed.
func objVal(cp *embertree.ContentParameter) (glow.Val, error) {
	var v glow.Val
	okCount := 0
	if s, e := cp.GetString(); e == nil {
		v, okCount = glow.Val{T: "str", S: []byte(s)}, okCount+1
	}
	if b, e := cp.GetBuffer(); e == nil {
		v, okCount = glow.Val{T: "bits", S: b}, okCount+1
	}
	if i, e := cp.GetInt(); e == nil {
		v, okCount = glow.Val{T: "int", I: i}, okCount+1
	}
	if b, e := cp.GetBool(); e == nil {
		v, okCount = glow.Val{T: "bool", B: b}, okCount+1
	}
	if r, e := cp.GetReal(); e == nil {
		v, okCount = glow.Val{T: "real", R: math.Float64bits(r)}, okCount+1
	}
	if o, e := cp.GetRelativeOID(); e == nil {
		v, okCount = glow.Val{T: "oid", O: o}, okCount+1
	}
	if okCount != 1 {
		return v, fmt.Errorf("%d typed getters succeed", okCount)
	}
	want := map[string]embertree.ValueType{"str": embertree.ValueTypeString, "bits": embertree.ValueTypeBuffer, "int": embertree.ValueTypeInteger,
		"bool": embertree.ValueTypeBool, "real": embertree.ValueTypeReal, "oid": embertree.ValueTypeOID}[v.T]
	if cp.GetType() != want {
		return v, fmt.Errorf("GetType %d but the %s getter succeeds", cp.GetType(), v.T)
	}
	return v, nil
}

type fieldCheck struct {
	name string
	k    int
	t    string // type the getter serves
	get  func() (glow.Val, errors.Error)
}

func sget(f func() (string, errors.Error)) func() (glow.Val, errors.Error) {
	return func() (glow.Val, errors.Error) { s, e := f(); return glow.Val{T: "str", S: []byte(s)}, e }
}
func bget(f func() (bool, errors.Error)) func() (glow.Val, errors.Error) {
	return func() (glow.Val, errors.Error) { b, e := f(); return glow.Val{T: "bool", B: b}, e }
}
func iget[T ~int | ~int8 | ~int64](f func() (T, errors.Error)) func() (glow.Val, errors.Error) {
	return func() (glow.Val, errors.Error) { i, e := f(); return glow.Val{T: "int", I: int64(i)}, e }
}
func oget(f func() (asn1.RelativeOID, errors.Error)) func() (glow.Val, errors.Error) {
	return func() (glow.Val, errors.Error) { o, e := f(); return glow.Val{T: "oid", O: o}, e }
}

func checkTuples(name string, got []*embertree.TupleDescription, want []glow.Tuple) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d %s, want %d", len(got), name, len(want))
	}
	for i, g := range got {
		if g == nil || int32(g.Type) != want[i].Type || g.Name != string(want[i].Name) {
			return fmt.Errorf("%s %d is %+v, want %d %q", name, i, g, want[i].Type, want[i].Name)
		}
	}
	return nil
}

// checkContents compares contents through their getters.
func checkContents(kind string, c *glow.Contents, x embertree.EmberContents) error {
	var fs []fieldCheck
	objs := map[int]*embertree.ContentParameter{}
	switch kind {
	case glow.Node:
		n, ok := x.(*embertree.NodeContents)
		if !ok {
			return fmt.Errorf("contents of type %T", x)
		}
		fs = []fieldCheck{{"identifier", 0, "str", sget(n.GetIdentifier)}, {"description", 1, "str", sget(n.GetDescription)},
			{"isRoot", 2, "bool", bget(n.GetIsRoot)}, {"isOnline", 3, "bool", bget(n.GetIsOnline)}, {"schemaIdentifiers", 4, "str", sget(n.GetSchemaIdentifiers)}}
		ref, e := n.GetTemplateReference()
		if e != nil || !sameOID(ref, c.Ref) {
			return fmt.Errorf("template reference %v %s, want %v", ref, emsg(e), c.Ref)
		}
	case glow.Param:
		p, ok := x.(*embertree.ParameterContents)
		if !ok {
			return fmt.Errorf("contents of type %T", x)
		}
		fs = []fieldCheck{{"identifier", 0, "str", sget(p.GetIdentifier)}, {"description", 1, "str", sget(p.GetDescription)},
			{"access", 5, "str", sget(p.GetAccess)}, {"format", 6, "str", sget(p.GetFormat)}, {"enumeration", 7, "str", sget(p.GetEnumeration)},
			{"factor", 8, "int", iget(p.GetFactor)}, {"isOnline", 9, "bool", bget(p.GetOnline)}, {"formula", 10, "str", sget(p.GetFormula)},
			{"step", 11, "int", iget(p.GetStep)}, {"type", 13, "str", sget(p.GetType)}, {"streamIdentifier", 14, "int", iget(p.GetStreamIdentifier)}}
		objs = map[int]*embertree.ContentParameter{2: p.GetValueObject(), 3: p.GetMinimumObject(), 4: p.GetMaximumObject(), 12: p.GetDefaultObject()}
	case glow.Matrix:
		m, ok := x.(*embertree.MatrixContent)
		if !ok {
			return fmt.Errorf("contents of type %T", x)
		}
		fs = []fieldCheck{{"identifier", 0, "str", sget(m.GetIdentifier)}, {"description", 1, "str", sget(m.GetDescription)},
			{"type", 2, "int", iget(m.GetType)}, {"mode", 3, "int", iget(m.GetMode)}, {"targetCount", 4, "int", iget(m.GetTargetCount)},
			{"sourceCount", 5, "int", iget(m.GetSourceCount)}, {"maxTotalConnects", 6, "int", iget(m.GetMaxTotalConnects)},
			{"maxConnectsPerTarget", 7, "int", iget(m.GetMaxConnectsPerTarget)}, {"parametersLocation", 8, "oid", oget(m.GetParameterLocation)},
			{"gainParameterNumber", 9, "int", iget(m.GetGainParameterNumber)}, {"schemaIdentifiers", 11, "str", sget(m.GetSchemaIdentifier)}}
	case glow.Func:
		f, ok := x.(*embertree.FunctionContents)
		if !ok {
			return fmt.Errorf("contents of type %T", x)
		}
		fs = []fieldCheck{{"identifier", 0, "str", sget(f.GetIdentifier)}, {"description", 1, "str", sget(f.GetDescription)}}
		if err := checkTuples("arguments", f.GetArguments(), c.Args); err != nil {
			return err
		}
		if err := checkTuples("results", f.GetResult(), c.Res); err != nil {
			return err
		}
	case glow.Cmd:
		k, ok := x.(*embertree.CommandContents)
		if !ok {
			return fmt.Errorf("contents of type %T", x)
		}
		if int32(k.GetFieldFlags()) != c.Flags {
			return fmt.Errorf("field flags %d, want %d", k.GetFieldFlags(), c.Flags)
		}
	}
	for _, f := range fs {
		want, ok := c.V[f.k]
		if !ok && kind == glow.Matrix && (f.k == 2 || f.k == 3) {
			want, ok = glow.Val{T: "int"}, true
		}
		got, e := f.get()
		if !ok || want.T != f.t {
			if e == nil {
				return fmt.Errorf("%s getter gives %.200s, want an error (model: %v)", f.name, got, want)
			}
			continue
		}
		if e != nil {
			return fmt.Errorf("%s getter fails: %s", f.name, emsg(e))
		}
		if got.String() != want.String() {
			return fmt.Errorf("%s is %.200s, want %.200s", f.name, got, want)
		}
	}
	for k, obj := range objs {
		v, ok := c.V[k]
		if err := checkObj(fmt.Sprintf("field %d", k), obj, v, ok); err != nil {
			return err
		}
	}
	return nil
}

func checkSignals(name string, got []embertree.Signal, want []int32, target bool) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d %s, want %d", len(got), name, len(want))
	}
	for i, s := range got {
		var n int32
		switch x := s.(type) {
		case *embertree.Target:
			if !target {
				return fmt.Errorf("%s hold a target", name)
			}
			n = x.Number
		case *embertree.Source:
			if target {
				return fmt.Errorf("%s hold a source", name)
			}
			n = x.Number
		default:
			return fmt.Errorf("%s hold a %T", name, s)
		}
		if n != want[i] {
			return fmt.Errorf("%s %d is %d, want %d", name, i, n, want[i])
		}
	}
	return nil
}

func connText(c *embertree.Connection) string {
	s := append([]int32{}, c.Sources...)
	return glow.Conn{Target: c.Target, Sources: s, Op: int32(c.GetOperation()), Disp: int32(c.GetDisposition())}.Text()
}

func modelConnText(c glow.Conn) string {
	c.Sources = append([]int32{}, c.Sources...)
	return c.Text()
}

// checkElem compares a library element and all below it with the model:
// through the getters, and by re-encoding each element and decoding that with
// the independent decoder.
func checkElem(m *glow.Elem, el *embertree.Element, deep bool) error {
	at := fmt.Sprintf("%s %d", m.Kind, m.Number())
	if el == nil {
		return fmt.Errorf("%s is missing", at)
	}
	if el.Number != int(m.Number()) {
		return fmt.Errorf("%s has number %d", at, el.Number)
	}
	if el.GetTag() != m.Tag() {
		return fmt.Errorf("%s has tag 0x%x, want 0x%x", at, el.GetTag(), m.Tag())
	}
	x := el.GetContent()
	if (x == nil) != (m.C == nil) {
		return fmt.Errorf("%s: contents present %v, want %v", at, x != nil, m.C != nil)
	}
	if y, e := el.GetContents(); e != nil || y != x {
		return fmt.Errorf("%s: GetContents and GetContent differ", at)
	}
	if m.C != nil {
		if err := checkContents(m.Kind, m.C, x); err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
	}
	if m.Qual && !sameOID(el.GetPath(), m.Path) {
		return fmt.Errorf("%s has path %v, want %v", at, el.GetPath(), m.Path)
	}
	ts, e1 := el.GetTargets()
	ss, e2 := el.GetSources()
	cs, e3 := el.GetConnections()
	if m.Kind == glow.Matrix {
		if e1 != nil || e2 != nil || e3 != nil {
			return fmt.Errorf("%s: matrix getters fail: %s %s %s", at, emsg(e1), emsg(e2), emsg(e3))
		}
		if err := checkSignals("targets", ts, m.Targets, true); err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		if err := checkSignals("sources", ss, m.Sources, false); err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		if len(cs) != len(m.Conns) {
			return fmt.Errorf("%s has %d connections, want %d", at, len(cs), len(m.Conns))
		}
		for i, c := range cs {
			if g, w := connText(c), modelConnText(m.Conns[i]); g != w {
				return fmt.Errorf("%s: connection %d is %s, want %s", at, i, g, w)
			}
		}
	} else if e1 == nil || e2 == nil || e3 == nil {
		return fmt.Errorf("%s: matrix getters succeed on it", at)
	}
	b, err := encodeElem(el)
	if err != nil {
		return fmt.Errorf("%s: re-encoding: %w", at, err)
	}
	re, err := glow.ParseElem(b)
	if err != nil {
		return fmt.Errorf("%s: re-encoded as %s: %v", at, hexs(b), err)
	}
	want := m
	if deep {
		want = m.Shallow()
	}
	if d := glow.Diff(re.Text(), want.Text()); d != "" {
		return fmt.Errorf("%s re-encoded: %s", at, d)
	}
	if len(el.Children) != len(m.Kids) {
		return fmt.Errorf("%s has %d children, want %d", at, len(el.Children), len(m.Kids))
	}
	for _, k := range m.Kids {
		c := el.Children[int(k.Number())]
		if err := checkElem(k, c, deep); err != nil {
			return fmt.Errorf("%s / %w", at, err)
		}
		p, e := c.GetParent()
		if e != nil || p != el {
			return fmt.Errorf("%s: parent of child %d is not it", at, k.Number())
		}
	}
	return nil
}

func checkTree(es []*glow.Elem, root *embertree.RootElement) error {
	if len(root.RootElementCollection) != len(es) {
		return fmt.Errorf("%d elements under the root, want %d", len(root.RootElementCollection), len(es))
	}
	for _, m := range es {
		if err := checkElem(m, root.RootElementCollection[int(m.Number())], true); err != nil {
			return err
		}
		if g := root.GetElementByNumber(int(m.Number())); g != root.RootElementCollection[int(m.Number())] {
			return fmt.Errorf("GetElementByNumber(%d) gives another element", m.Number())
		}
	}
	return nil
}

func parseAll(b []byte) (*ber.Node, error) {
	n, rest, err := ber.Parse(b, ber.Rules{})
	if err != nil {
		return nil, err
	}
	if len(rest) > 0 {
		return nil, fmt.Errorf("%d stray bytes", len(rest))
	}
	return n, nil
}
