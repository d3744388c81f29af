package props

import (
	"bytes"
	"fmt"
	"math"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"pgregory.net/rapid"
	"vpharness/ber"
	"vpharness/engine"
	"vpharness/glow"
)

// ---- C15: content values ----

var settableVal = []string{"str", "bits", "int", "bool", "real", "oid"}

// ValOp is one operation on a handful of content values.
type ValOp struct {
	Op   string // set, assign, recode, wire, fresh, get
	I, J int
	V    glow.Val
	Ctx  int
	Form []byte `json:",omitempty"`
}

// ValProg is a history of operations on content values.
type ValProg struct{ Ops []ValOp }

const nVals = 4

func genValProg(t *rapid.T) ValProg {
	var p ValProg
	n := rapid.IntRange(1, 25).Draw(t, "ops")
	for i := 0; i < n; i++ {
		op := ValOp{Op: rapid.SampledFrom([]string{"set", "set", "set", "assign", "assign", "assign", "recode", "wire", "fresh", "get"}).Draw(t, "op"),
			I: rapid.IntRange(0, nVals-1).Draw(t, "i")}
		switch op.Op {
		case "set":
			op.V = genVal(t, settableVal...)
		case "assign":
			op.J = rapid.IntRange(0, nVals-1).Draw(t, "j")
		case "recode":
			op.Ctx = rapid.IntRange(0, 30).Draw(t, "ctx")
		case "wire":
			op.V = genVal(t, settableVal...)
			op.Ctx = rapid.IntRange(0, 30).Draw(t, "ctx")
			op.Form = rapid.SliceOfN(rapid.ByteRange(0, 5), 0, 4).Draw(t, "forms")
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func checkCP(i int, cp *embertree.ContentParameter, m *glow.Val) error {
	name := fmt.Sprintf("value %d", i)
	if m != nil {
		return checkObj(name, cp, *m, true)
	}
	if cp.IsSet() || cp.GetType() != embertree.ValueTypeUnset {
		return fmt.Errorf("%s: IsSet %v, type %d, never set", name, cp.IsSet(), cp.GetType())
	}
	_, e1 := cp.GetString()
	_, e2 := cp.GetBuffer()
	_, e3 := cp.GetInt()
	_, e4 := cp.GetBool()
	_, e5 := cp.GetReal()
	_, e6 := cp.GetRelativeOID()
	for k, e := range []errors.Error{e1, e2, e3, e4, e5, e6} {
		if e == nil {
			return fmt.Errorf("%s: getter %d succeeds, never set", name, k)
		}
	}
	return nil
}

func runValProg(p ValProg, o *engine.Obs) error {
	vals := make([]*embertree.ContentParameter, nVals)
	model := make([]*glow.Val, nVals)
	for i := range vals {
		vals[i] = embertree.NewContentParameter()
	}
	changes, refused := 0, 0
	for k, op := range p.Ops {
		fail := func(format string, a ...any) error {
			return fmt.Errorf("operation %d (%s): %s", k, op.Op, fmt.Sprintf(format, a...))
		}
		switch op.Op {
		case "set":
			if m := model[op.I]; m != nil && m.T != op.V.T {
				changes++
				o.Label("type changed by a setter")
			}
			setObj(vals[op.I], op.V)
			v := op.V
			model[op.I] = &v
		case "assign":
			e := vals[op.I].Set(vals[op.J])
			from, to := model[op.J], model[op.I]
			switch {
			case to == nil && from == nil:
				if e != nil {
					return fail("assigning nothing to nothing fails: %s", emsg(e))
				}
			case to == nil || (from != nil && from.T == to.T):
				if e != nil {
					return fail("assigning %v to %v fails: %s", from, to, emsg(e))
				}
				v := *from
				model[op.I] = &v
				o.Label("assigned")
			default:
				if e == nil {
					return fail("assigning %v to %v is accepted", from, to)
				}
				refused++
				o.Label("assignment refused")
			}
		case "recode":
			w := asn1.NewASNWriter()
			if e := vals[op.I].Encode(uint8(op.Ctx), w); e != nil {
				return fail("encoding %v: %s", model[op.I], emsg(e))
			}
			b := drain(w)
			if model[op.I] == nil {
				if len(b) > 0 {
					return fail("an unset value is encoded as %s", hexs(b))
				}
				continue
			}
			n, err := parseAll(b)
			if err != nil {
				return fail("encoded as %s: %v", hexs(b), err)
			}
			if n.Tag != ber.Ctx(op.Ctx) || len(n.Kids) != 1 || n.Kids[0].Tag != model[op.I].Node().Tag {
				return fail("%v encoded as %s", model[op.I], hexs(b))
			}
			r := asn1.NewASNReader(b)
			got, e := embertree.DecodeValue(r, uint8(op.Ctx))
			if e != nil {
				return fail("decoding %s: %s", hexs(b), emsg(e))
			}
			if r.Len() != 0 {
				return fail("%d bytes left of %s", r.Len(), hexs(b))
			}
			vals[op.I] = got
			o.Label("recoded %s", model[op.I].T)
		case "wire":
			b := glow.Style{Forms: op.Form}.Tree(ber.C(ber.Ctx(op.Ctx), op.V.Node()))
			r := asn1.NewASNReader(b)
			got, e := embertree.DecodeValue(r, uint8(op.Ctx))
			if e != nil {
				return fail("decoding %s: %s", hexs(b), emsg(e))
			}
			if r.Len() != 0 {
				return fail("%d bytes left of %s", r.Len(), hexs(b))
			}
			vals[op.I] = got
			v := op.V
			model[op.I] = &v
		case "fresh":
			vals[op.I], model[op.I] = embertree.NewContentParameter(), nil
		}
		for i := range vals {
			if err := checkCP(i, vals[i], model[i]); err != nil {
				return fail("%v", err)
			}
		}
	}
	if changes+refused == 0 {
		o.Trivial()
	}
	return nil
}

// FieldOp sets some fields of one kind of contents.
type FieldOp struct {
	C *glow.Contents
	// Recode encodes and decodes the contents before this step.
	Recode bool
}

// FieldProg is a history of field assignments.
type FieldProg struct {
	Kind string
	Ops  []FieldOp
}

func genFieldProg(t *rapid.T) FieldProg {
	p := FieldProg{Kind: rapid.SampledFrom([]string{glow.Node, glow.Param, glow.Param, glow.Matrix, glow.Func, glow.Cmd}).Draw(t, "kind")}
	n := rapid.IntRange(1, 7).Draw(t, "ops")
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, FieldOp{C: genContents(t, p.Kind, true), Recode: rapid.IntRange(0, 4).Draw(t, "recode") == 0})
	}
	return p
}

func runFieldProg(p FieldProg, o *engine.Obs) error {
	x := newContents(p.Kind)
	m := &glow.Contents{V: map[int]glow.Val{}}
	if p.Kind == glow.Matrix {
		m.V[2], m.V[3] = glow.Val{T: "int"}, glow.Val{T: "int"}
	}
	over := 0
	for i, op := range p.Ops {
		if op.Recode {
			w := asn1.NewASNWriter()
			if e := x.Encode(w); e != nil {
				return fmt.Errorf("step %d: encoding: %s", i, emsg(e))
			}
			x = newContents(p.Kind)
			if e := x.Decode(asn1.NewASNReader(drain(w))); e != nil {
				return fmt.Errorf("step %d: decoding: %s", i, emsg(e))
			}
			if err := checkContents(p.Kind, m, x); err != nil {
				return fmt.Errorf("step %d, recoded: %w", i, err)
			}
		}
		fillContents(p.Kind, op.C, x)
		for k, v := range op.C.V {
			if _, ok := m.V[k]; ok {
				over++
			}
			m.V[k] = v
		}
		if p.Kind == glow.Node && len(op.C.Ref) > 0 {
			m.Ref = op.C.Ref
		}
		if p.Kind == glow.Func {
			if len(op.C.Args) > 0 || op.C.ShowEmpty {
				m.Args = op.C.Args
			}
			if len(op.C.Res) > 0 || op.C.ShowEmpty {
				m.Res = op.C.Res
			}
		}
		m.Flags = op.C.Flags
		if err := checkContents(p.Kind, m, x); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
	}
	o.Label("%s", p.Kind)
	if over > 0 {
		o.Label("fields set again")
	}
	if len(m.V) == 0 && p.Kind != glow.Cmd {
		o.Trivial()
	}
	return nil
}

// ---- C16: matrices ----

// EnumOp tries one number as an enumerated value.
type EnumCase struct {
	What string
	N    int
}

func enumNumbers(yield func(EnumCase) bool) {
	for _, what := range []string{"type", "mode", "new type", "new mode", "qualified type", "qualified mode", "contents type", "contents mode", "validate type", "validate mode"} {
		for n := -128; n <= 127; n++ {
			if !yield(EnumCase{what, n}) {
				return
			}
		}
	}
	edges := []int{math.MinInt32, math.MinInt32 + 1, -65536, -65535, -257, -256, -255, 256, 257, 258, 259, 512, 513, 65535, 65536, 65537, 1 << 24, math.MaxInt32,
		1 << 32, 1<<32 + 1, 1<<32 + 2, 1<<32 + 3, -1 << 32, -1<<32 + 1, math.MaxInt64, math.MinInt64}
	for _, what := range []string{"operation", "disposition", "wire operation", "wire disposition", "wire type", "wire mode"} {
		for n := -300; n <= 300; n++ {
			if !yield(EnumCase{what, n}) {
				return
			}
		}
		for _, n := range edges {
			if !yield(EnumCase{what, n}) {
				return
			}
		}
	}
}

func connState(c *embertree.Connection) string { return connText(c) }

func enumHolds(c EnumCase, o *engine.Obs) error {
	legal := map[string]int{"type": 3, "mode": 2, "operation": 3, "disposition": 4}
	words := bytes.Fields([]byte(c.What))
	ok := c.N >= 0 && c.N < legal[string(words[len(words)-1])]
	o.Label("%s %s", c.What, map[bool]string{true: "legal", false: "illegal"}[ok])
	verdict := func(accepted bool, why string) error {
		if accepted != ok {
			return fmt.Errorf("%s %d: accepted %v, want %v (%s)", c.What, c.N, accepted, ok, why)
		}
		return nil
	}
	mc := func(x embertree.EmberContents) *embertree.MatrixContent { return x.(*embertree.MatrixContent) }
	state := func(m *embertree.MatrixContent, typ, mode int) error {
		t, e1 := m.GetType()
		d, e2 := m.GetMode()
		if e1 != nil || e2 != nil || int(t) != typ || int(d) != mode {
			return fmt.Errorf("after %s %d the matrix has type %d %s mode %d %s, want %d and %d", c.What, c.N, t, emsg(e1), d, emsg(e2), typ, mode)
		}
		return nil
	}
	pick := func(isType bool, typ, mode int) (int, int) {
		if !ok {
			return typ, mode
		}
		if isType {
			return c.N, mode
		}
		return typ, c.N
	}
	switch c.What {
	case "type", "mode":
		m, e := embertree.NewMatrixContent(embertree.NToN, embertree.NonLinear)
		if e != nil {
			return fmt.Errorf("NewMatrixContent: %s", emsg(e))
		}
		if c.What == "type" {
			e = m.SetType(embertree.MatrixType(c.N))
		} else {
			e = m.SetMode(embertree.MatrixMode(c.N))
		}
		if err := verdict(e == nil, emsg(e)); err != nil {
			return err
		}
		t, d := pick(c.What == "type", 2, 1)
		return state(m, t, d)
	case "validate type":
		e := embertree.ValidateMatrixType(embertree.MatrixType(c.N))
		return verdict(e == nil, emsg(e))
	case "validate mode":
		e := embertree.ValidateMatrixMode(embertree.MatrixMode(c.N))
		return verdict(e == nil, emsg(e))
	case "new type", "new mode", "qualified type", "qualified mode", "contents type", "contents mode":
		typ, mode := embertree.NToN, embertree.NonLinear
		isType := string(words[1]) == "type"
		if isType {
			typ = embertree.MatrixType(c.N)
		} else {
			mode = embertree.MatrixMode(c.N)
		}
		var m *embertree.MatrixContent
		why := ""
		switch string(words[0]) {
		case "new":
			el, e := embertree.NewMatrix(5, typ, mode)
			why = emsg(e)
			if e == nil {
				m = mc(el.GetContent())
			} else if el != nil {
				return fmt.Errorf("%s %d: an error and an element", c.What, c.N)
			}
		case "qualified":
			if el := embertree.NewQualifiedMatrix(asn1.RelativeOID{1, 5}, typ, mode); el != nil {
				m = mc(el.GetContent())
			}
		case "contents":
			x, e := embertree.NewMatrixContent(typ, mode)
			why = emsg(e)
			if e == nil {
				m = x
			}
		}
		if err := verdict(m != nil, why); err != nil || m == nil {
			return err
		}
		t, d := pick(isType, 2, 1)
		return state(m, t, d)
	case "operation", "disposition":
		x := &embertree.Connection{Target: 3, Sources: []int32{4}}
		x.SetOperation(1)
		x.SetDisposition(2)
		want := glow.Conn{Target: 3, Sources: []int32{4}, Op: 1, Disp: 2}
		var e errors.Error
		if c.What == "operation" {
			e = x.SetOperation(c.N)
		} else {
			e = x.SetDisposition(c.N)
		}
		if err := verdict(e == nil, emsg(e)); err != nil {
			return err
		}
		if ok && c.What == "operation" {
			want.Op = int32(c.N)
		} else if ok {
			want.Disp = int32(c.N)
		}
		if g := connState(x); g != want.Text() {
			return fmt.Errorf("after %s %d the connection is %s, want %s", c.What, c.N, g, want.Text())
		}
	case "wire operation", "wire disposition":
		n := ber.C(ber.App(16), ber.C(ber.Ctx(0), ber.P(ber.Int, ber.IntBytes(3))))
		ctx := 2
		if c.What == "wire disposition" {
			ctx = 3
		}
		n.Kids = append(n.Kids, ber.C(ber.Ctx(ctx), ber.P(ber.Int, ber.IntBytes(int64(c.N)))))
		x := &embertree.Connection{}
		e := x.Decode(asn1.NewASNReader(n.Bytes()))
		if err := verdict(e == nil, emsg(e)); err != nil || e != nil {
			return err
		}
		want := glow.Conn{Target: 3}
		if ctx == 2 {
			want.Op = int32(c.N)
		} else {
			want.Disp = int32(c.N)
		}
		if g := connState(x); g != modelConnText(want) {
			return fmt.Errorf("%s %d decodes to %s", c.What, c.N, g)
		}
	case "wire type", "wire mode":
		cont := &glow.Contents{V: map[int]glow.Val{2: {T: "int", I: 2}, 3: {T: "int", I: 1}}}
		k := 2
		if c.What == "wire mode" {
			k = 3
		}
		cont.V[k] = glow.Val{T: "int", I: int64(c.N)}
		x := embertree.NewDefaultMatrixContents()
		e := x.Decode(asn1.NewASNReader(glow.Style{}.Contents(glow.Matrix, cont)))
		if err := verdict(e == nil, emsg(e)); err != nil || e != nil {
			return err
		}
		t, d := pick(k == 2, 2, 1)
		return state(mc(x), t, d)
	}
	return nil
}

// MatOp is one operation on the matrix under test.
type MatOp struct {
	Op    string // targets, sources, conns, fields, conn op, decode targets, decode sources, decode conns, decode labels, decode contents, recode
	Nums  []int32
	Conns []glow.Conn
	C     *glow.Contents
	L     []glow.Label
	I, N  int
	Style glow.Style
}

// MatProg is a history of operations on a matrix, and another element to which they must not apply.
type MatProg struct {
	Qual  bool
	Path  []int32
	Other *glow.Elem
	Ops   []MatOp
}

func genMany(t *rapid.T) []int32 {
	if rapid.IntRange(0, 15).Draw(t, "manySignals") > 0 {
		return genNums(t)
	}
	n := rapid.IntRange(5, 300).Draw(t, "many")
	base := genI32(t)
	var out []int32
	for i := 0; i < n; i++ {
		out = append(out, base+int32(i*7))
	}
	return out
}

func genMatProg(t *rapid.T) MatProg {
	p := MatProg{Qual: rapid.Bool().Draw(t, "qual"), Path: genOID(t, 1)}
	o := &treeOpts{settable: true, depth: 0, budget: 2, bare: true}
	for p.Other == nil || p.Other.Kind == glow.Matrix {
		p.Other = genElem(t, o, 0, genID(t))
	}
	if p.Other.Kind != glow.Cmd && rapid.Bool().Draw(t, "otherQual") {
		p.Other.Qual, p.Other.Path = true, append(genOID(t, 0), p.Other.Num)
	}
	n := rapid.IntRange(1, 12).Draw(t, "ops")
	for i := 0; i < n; i++ {
		op := MatOp{Op: rapid.SampledFrom([]string{"targets", "sources", "conns", "fields", "conn op", "conn disp", "decode targets", "decode sources",
			"decode conns", "decode labels", "decode contents", "recode"}).Draw(t, "op"), Style: genStyle(t)}
		switch op.Op {
		case "targets", "sources", "decode targets", "decode sources":
			op.Nums = genMany(t)
		case "conns", "decode conns":
			k := rapid.IntRange(0, 4).Draw(t, "conns")
			for j := 0; j < k; j++ {
				op.Conns = append(op.Conns, genConn(t))
			}
		case "fields":
			op.C = genContents(t, glow.Matrix, true)
		case "decode contents":
			op.C = genContents(t, glow.Matrix, false)
		case "conn op", "conn disp":
			op.I, op.N = rapid.IntRange(0, 3).Draw(t, "i"), rapid.IntRange(-2, 6).Draw(t, "n")
		case "decode labels":
			k := rapid.IntRange(0, 4).Draw(t, "labels")
			for j := 0; j < k; j++ {
				op.L = append(op.L, glow.Label{Base: genOID(t, 0), Desc: genText(t)})
			}
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func signalList(ctx, app int, nums []int32) *ber.Node {
	s := ber.C(ber.Seq)
	for _, v := range nums {
		s.Kids = append(s.Kids, ber.C(ber.Ctx(0), glow.SignalNode(app, v)))
	}
	return ber.C(ber.Ctx(ctx), s)
}

func connList(cs []glow.Conn) *ber.Node {
	s := ber.C(ber.Seq)
	for _, c := range cs {
		s.Kids = append(s.Kids, ber.C(ber.Ctx(0), glow.ConnNode(c)))
	}
	return ber.C(ber.Ctx(5), s)
}

func labelList(ls []glow.Label) *ber.Node {
	s := ber.C(ber.Seq)
	for _, l := range ls {
		s.Kids = append(s.Kids, ber.C(ber.Ctx(0), glow.LabelNode(l)))
	}
	return ber.C(ber.Ctx(10), s)
}

// notAMatrix checks that matrix operations on the element fail and leave it alone.
func notAMatrix(m *glow.Elem, el *embertree.Element) error {
	check := func(what string, e errors.Error) error {
		if e == nil {
			return fmt.Errorf("%s succeeds on a %s", what, m.Kind)
		}
		return nil
	}
	w := asn1.NewASNWriter()
	rd := func(n *ber.Node) *asn1.ASNReader { return asn1.NewASNReader(n.Bytes()) }
	for _, err := range []error{
		check("SetTargets", el.SetTargets(buildSignals([]int32{1}, true))),
		check("SetSources", el.SetSources(buildSignals([]int32{1}, false))),
		check("SetConnections", el.SetConnections([]*embertree.Connection{{}})),
		check("EncodeTargets", el.EncodeTargets(w)),
		check("EncodeSources", el.EncodeSources(w)),
		check("EncodeConnections", el.EncodeConnections(w)),
		check("DecodeTargets", el.DecodeTargets(rd(signalList(3, 14, []int32{2})))),
		check("DecodeSources", el.DecodeSources(rd(signalList(4, 15, []int32{2})))),
		check("DecodeConnections", el.DecodeConnections(rd(connList([]glow.Conn{{Target: 1}})))),
	} {
		if err != nil {
			return err
		}
	}
	if w.Len() > 0 {
		return fmt.Errorf("matrix operations on a %s write %d bytes", m.Kind, w.Len())
	}
	return checkElem(m, el, false)
}

func runMatProg(p MatProg, o *engine.Obs) error {
	m := &glow.Elem{Kind: glow.Matrix, Num: p.Path[len(p.Path)-1], Qual: p.Qual, C: &glow.Contents{V: map[int]glow.Val{2: {T: "int"}, 3: {T: "int"}}}}
	if p.Qual {
		m.Path = p.Path
	}
	el, err := build(m)
	if err != nil {
		return err
	}
	other, err := build(p.Other)
	if err != nil {
		return err
	}
	if err := notAMatrix(p.Other, other); err != nil {
		return err
	}
	for k, op := range p.Ops {
		fail := func(format string, a ...any) error {
			return fmt.Errorf("operation %d (%s): %s", k, op.Op, fmt.Sprintf(format, a...))
		}
		o.Label("%s", op.Op)
		var e errors.Error
		read := func(n *ber.Node, f func(*asn1.ASNReader) errors.Error) {
			r := asn1.NewASNReader(op.Style.Tree(n))
			if e = f(r); e == nil && r.Len() > 0 {
				e = errors.New("%d bytes left", r.Len())
			}
		}
		contents := func() *embertree.MatrixContent { return el.GetContent().(*embertree.MatrixContent) }
		switch op.Op {
		case "targets":
			e, m.Targets = el.SetTargets(buildSignals(op.Nums, true)), op.Nums
		case "sources":
			e, m.Sources = el.SetSources(buildSignals(op.Nums, false)), op.Nums
		case "conns":
			var cs []*embertree.Connection
			for _, c := range op.Conns {
				lc, err := buildConn(c)
				if err != nil {
					return err
				}
				cs = append(cs, lc)
			}
			e, m.Conns = el.SetConnections(cs), append([]glow.Conn{}, op.Conns...)
		case "decode targets":
			read(signalList(3, 14, op.Nums), el.DecodeTargets)
			m.Targets = op.Nums
		case "decode sources":
			read(signalList(4, 15, op.Nums), el.DecodeSources)
			m.Sources = op.Nums
		case "decode conns":
			read(connList(op.Conns), el.DecodeConnections)
			m.Conns = append([]glow.Conn{}, op.Conns...)
		case "decode labels":
			read(labelList(op.L), contents().DecodeLabels)
			m.C.Labels = op.L
		case "fields":
			fillContents(glow.Matrix, op.C, contents())
			for f, v := range op.C.V {
				m.C.V[f] = v
			}
		case "conn op", "conn disp":
			if len(m.Conns) == 0 {
				continue
			}
			i := op.I % len(m.Conns)
			cs, e2 := el.GetConnections()
			if e2 != nil || len(cs) != len(m.Conns) {
				return fail("%d connections %s, want %d", len(cs), emsg(e2), len(m.Conns))
			}
			limit, field, set := 3, &m.Conns[i].Op, cs[i].SetOperation
			if op.Op == "conn disp" {
				limit, field, set = 4, &m.Conns[i].Disp, cs[i].SetDisposition
			}
			legal := op.N >= 0 && op.N < limit
			if e2 := set(op.N); (e2 == nil) != legal {
				return fail("%d accepted %v, want %v", op.N, e2 == nil, legal)
			}
			if legal {
				*field = int32(op.N)
			}
		case "decode contents":
			x := embertree.NewDefaultMatrixContents()
			read(glow.ContentsNode(glow.Matrix, op.C, nil), x.Decode)
			if e == nil {
				el.SetContents(x)
			}
			m.C = &glow.Contents{V: map[int]glow.Val{2: {T: "int"}, 3: {T: "int"}}, Ref: op.C.Ref, Labels: op.C.Labels}
			for f, v := range op.C.V {
				m.C.V[f] = v
			}
		case "recode":
			b, err := encodeElem(el)
			if err != nil {
				return fail("%v", err)
			}
			x, e2 := embertree.DecodeElement(asn1.NewASNReader(b))
			if e2 != nil {
				return fail("decoding %s: %s", hexs(b), emsg(e2))
			}
			el = x
		}
		if e != nil {
			return fail("%s", emsg(e))
		}
		if err := checkElem(m, el, false); err != nil {
			return fail("%v", err)
		}
	}
	if len(m.Targets)+len(m.Sources)+len(m.Conns)+len(m.C.Labels) == 0 && len(p.Ops) < 3 {
		o.Trivial()
	}
	return nil
}

// ---- C17: functions and invocations ----

// FuncProg is a history of operations on one function.
type FuncProg struct {
	Num   int32
	Qual  bool
	Path  []int32
	Steps []FuncStep
}

// FuncStep sets or decodes the function's contents.
type FuncStep struct {
	Op    string // args, result, names, wire, recode, part
	C     *glow.Contents
	Style glow.Style
}

func genTupleList(t *rapid.T) []glow.Tuple {
	if rapid.IntRange(0, 12).Draw(t, "longTuples") > 0 {
		return genTuples(t)
	}
	n := rapid.IntRange(5, 150).Draw(t, "tuplesMany")
	name := genText(t)
	var out []glow.Tuple
	for i := 0; i < n; i++ {
		out = append(out, glow.Tuple{Type: int32(i % 8), Name: append([]byte(fmt.Sprint(i)), name...)})
	}
	return out
}

func genFuncProg(t *rapid.T) FuncProg {
	p := FuncProg{Num: genID(t)}
	if rapid.Bool().Draw(t, "qual") {
		p.Qual, p.Path = true, append(genOID(t, 0), p.Num)
	}
	n := rapid.IntRange(1, 8).Draw(t, "steps")
	for i := 0; i < n; i++ {
		s := FuncStep{Op: rapid.SampledFrom([]string{"args", "result", "names", "wire", "wire", "recode"}).Draw(t, "op"), C: genContents(t, glow.Func, true), Style: genStyle(t)}
		s.C.Args, s.C.Res = genTupleList(t), genTupleList(t)
		p.Steps = append(p.Steps, s)
	}
	return p
}

func runFuncProg(p FuncProg, o *engine.Obs) error {
	m := &glow.Elem{Kind: glow.Func, Num: p.Num, Qual: p.Qual, Path: p.Path, C: &glow.Contents{V: map[int]glow.Val{}}}
	el, err := build(m)
	if err != nil {
		return err
	}
	tuples1, seen := 0, 0
	for k, s := range p.Steps {
		fail := func(format string, a ...any) error {
			return fmt.Errorf("step %d (%s): %s", k, s.Op, fmt.Sprintf(format, a...))
		}
		fc, ok := el.GetContent().(*embertree.FunctionContents)
		if !ok {
			return fail("contents are %T", el.GetContent())
		}
		o.Label("%s", s.Op)
		switch s.Op {
		case "args":
			fc.SetArguments(tuples(s.C.Args))
			m.C.Args = s.C.Args
		case "result":
			fc.SetResult(tuples(s.C.Res))
			m.C.Res = s.C.Res
		case "names":
			fillContents(glow.Func, &glow.Contents{V: s.C.V}, fc)
			for f, v := range s.C.V {
				m.C.V[f] = v
			}
		case "wire":
			x := *m
			x.C = s.C
			b := s.Style.Elem(&x)
			got, e := embertree.DecodeElement(asn1.NewASNReader(b))
			if e != nil {
				return fail("decoding %s: %s", hexs(b), emsg(e))
			}
			el = got
			m.C = &glow.Contents{V: map[int]glow.Val{}, Args: s.C.Args, Res: s.C.Res}
			for f, v := range s.C.V {
				m.C.V[f] = v
			}
		case "recode":
			b, err := encodeElem(el)
			if err != nil {
				return fail("%v", err)
			}
			got, e := embertree.DecodeElement(asn1.NewASNReader(b))
			if e != nil {
				return fail("decoding %s: %s", hexs(b), emsg(e))
			}
			el = got
		}
		if err := checkElem(m, el, false); err != nil {
			return fail("%v", err)
		}
		tuples1 = len(m.C.Args) + len(m.C.Res)
		seen += tuples1
	}
	switch {
	case tuples1 > 8:
		o.Label("more than 8 arguments and results")
	case tuples1 > 0:
		o.Label("1-8 arguments and results")
	}
	if seen == 0 {
		o.Trivial()
	}
	return nil
}

// InvCase is one invocation and a spelling for it.
type InvCase struct {
	ID    int32
	Args  []glow.Val
	Empty bool
	Style glow.Style
}

func genInvCase(t *rapid.T) InvCase {
	c := InvCase{ID: genI32(t), Empty: rapid.Bool().Draw(t, "showEmpty"), Style: genStyle(t)}
	n := rapid.IntRange(0, 5).Draw(t, "args")
	if rapid.IntRange(0, 20).Draw(t, "many") == 0 {
		n = rapid.IntRange(6, 60).Draw(t, "argsMany")
	}
	for i := 0; i < n; i++ {
		c.Args = append(c.Args, genVal(t, anyVal...))
	}
	return c
}

func runInvCase(c InvCase, o *engine.Obs) error {
	part := PartCase{Kind: "invocation", ID: c.ID, Args: c.Args}
	b, err := encodePart(part)
	if err != nil {
		return err
	}
	if err := part.conforms(b); err != nil {
		return fmt.Errorf("the invocation encoded as %s %w", hexs(b), err)
	}
	for i, wire := range [][]byte{b, c.Style.Tree(glow.InvocationNode(int64(c.ID), c.Args, c.Empty))} {
		// a fresh one and one that held other arguments
		used := embertree.NewInvocation(9, nil)
		if len(c.Args) > 0 {
			old := embertree.NewContentParameter()
			old.SetInt(5)
			used = embertree.NewInvocation(9, []*embertree.ContentParameter{old, old})
		}
		for _, x := range []*embertree.Invocation{{}, used} {
			r := asn1.NewASNReader(wire)
			if e := x.Decode(r); e != nil {
				return fmt.Errorf("decoding %s: %s", hexs(wire), emsg(e))
			}
			if r.Len() != 0 {
				return fmt.Errorf("%d bytes left of %s", r.Len(), hexs(wire))
			}
			w := asn1.NewASNWriter()
			if e := x.Encode(w); e != nil {
				return fmt.Errorf("encoding again: %s", emsg(e))
			}
			if d := diffBytes(drain(w), b); d != "" {
				return fmt.Errorf("spelling %d decodes to an invocation that encodes differently: %s", i, d)
			}
		}
	}
	o.Label("%d arguments", min(len(c.Args), 6))
	if len(c.Args) == 0 {
		o.Trivial()
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID: "C15", Title: "Typed values keep one type and reject the others",
		Rule: "a history counts if a setter changes a value's type or an assignment has to be refused; a field history if some field is set; cases are distinct",
		Subs: []engine.Sub{
			engine.NewSub("values", 12000, 250000, genValProg, runValProg),
			engine.NewSub("fields", 4000, 80000, genFieldProg, runFieldProg),
		},
	})
	register(&engine.Property{
		ID: "C16", Title: "Matrices accept only legal state and keep it exactly",
		Rule: "a number tried as an enumerated value counts; a history counts unless it is shorter than three operations and leaves every list empty; cases are distinct",
		Subs: []engine.Sub{
			engine.NewEnum("enumerated values", enumNumbers, enumHolds),
			engine.NewSub("histories", 4000, 80000, genMatProg, runMatProg),
		},
	})
	register(&engine.Property{
		ID: "C17", Title: "Functions and invocations carry all their arguments",
		Rule: "a history counts if the function has an argument or result at some time, an invocation if it has arguments; cases are distinct",
		Subs: []engine.Sub{
			engine.NewSub("functions", 4000, 80000, genFuncProg, runFuncProg),
			engine.NewSub("invocations", 6000, 120000, genInvCase, runInvCase),
		},
	})
}
