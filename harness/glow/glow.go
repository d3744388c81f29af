// Package glow is an independent model of the Glow DTD (the part emberlib
// implements): plain data, an encoder that can spell it in many legal ways, a
// strict decoder, and a canonical text form for comparison.
package glow

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"vpharness/ber"
)

// Val is one field value.
type Val struct {
	T string  // str, bits, int, bool, real, oid
	S []byte  `json:",omitempty"`
	I int64   `json:",omitempty"`
	B bool    `json:",omitempty"`
	R uint64  `json:",omitempty"`
	O []int32 `json:",omitempty"`
}

func (v Val) String() string {
	switch v.T {
	case "str", "bits":
		return fmt.Sprintf("%s %q", v.T, v.S)
	case "int":
		return fmt.Sprintf("int %d", v.I)
	case "bool":
		return fmt.Sprintf("bool %v", v.B)
	case "real":
		f := math.Float64frombits(v.R)
		if f == 0 {
			f = 0
			return "real 0"
		}
		if math.IsNaN(f) {
			return "real NaN"
		}
		return fmt.Sprintf("real %x", f)
	case "oid":
		return fmt.Sprintf("oid %v", v.O)
	}
	return "?" + v.T
}

func (v Val) node() *ber.Node {
	switch v.T {
	case "str":
		return ber.P(ber.UTF8, v.S)
	case "bits":
		return ber.P(ber.BitStr, v.S)
	case "int":
		return ber.P(ber.Int, ber.IntBytes(v.I))
	case "bool":
		b := byte(0)
		if v.B {
			b = 0xff
		}
		return ber.P(ber.Bool, []byte{b})
	case "real":
		return ber.P(ber.Real, ber.RealBytes(math.Float64frombits(v.R)))
	case "oid":
		return ber.P(ber.RelOID, ber.OIDBytes(v.O))
	}
	panic("value type " + v.T)
}

// Label, Tuple and Conn are the parts of matrices and functions.
type Label struct {
	Base []int32
	Desc []byte
}
type Tuple struct {
	Type int32
	Name []byte
	// Omit leaves an empty name out of the encoding.
	Omit bool `json:",omitempty"`
}
type Conn struct {
	Target   int32
	Sources  []int32
	Op, Disp int32
	// Omit leaves fields that hold their default out of the encoding.
	Omit bool `json:",omitempty"`
}

// Contents holds the fields of any kind of element.
type Contents struct {
	V      map[int]Val `json:",omitempty"` // by context number
	Ref    []int32     `json:",omitempty"` // templateReference
	Labels []Label     `json:",omitempty"`
	Args   []Tuple     `json:",omitempty"`
	Res    []Tuple     `json:",omitempty"`
	Flags  int32       `json:",omitempty"` // commands
	// ShowEmpty writes empty lists instead of leaving them out.
	ShowEmpty bool `json:",omitempty"`
}

// Kinds of elements.
const (
	Node   = "node"
	Param  = "param"
	Matrix = "matrix"
	Func   = "func"
	Cmd    = "cmd"
)

// Elem is one element.
type Elem struct {
	Kind    string
	Num     int32
	Path    []int32   `json:",omitempty"` // of a qualified element
	Qual    bool      `json:",omitempty"`
	C       *Contents `json:",omitempty"`
	Kids    []*Elem   `json:",omitempty"`
	Targets []int32   `json:",omitempty"`
	Sources []int32   `json:",omitempty"`
	Conns   []Conn    `json:",omitempty"`
	// Lists says which matrix lists are present even if empty: bit 0 targets, 1 sources, 2 connections, 3 children.
	Lists int `json:",omitempty"`
}

var plainTag = map[string]int{Node: 3, Param: 1, Matrix: 13, Func: 19, Cmd: 2}
var qualTag = map[string]int{Node: 10, Param: 9, Matrix: 17, Func: 20}

// Tag is the element's application tag.
func (e *Elem) Tag() byte {
	if e.Qual {
		return ber.App(qualTag[e.Kind])
	}
	return ber.App(plainTag[e.Kind])
}

// Number is the element's own number.
func (e *Elem) Number() int32 {
	if e.Qual && len(e.Path) > 0 {
		return e.Path[len(e.Path)-1]
	}
	return e.Num
}

func refCtx(kind string) int {
	switch kind {
	case Node:
		return 5
	case Param:
		return 18
	case Matrix:
		return 12
	}
	return -1
}

// Style chooses among legal spellings.
type Style struct {
	Forms []byte // length forms, see ber.Forms
	Order []byte // permutes the fields of SETs
	// PrimLong pads the lengths of primitives too.
	PrimLong bool
}

type shuffler struct {
	b []byte
	i int
}

func (s *shuffler) shuffle(n []*ber.Node) {
	if len(s.b) == 0 {
		return
	}
	for i := len(n) - 1; i > 0; i-- {
		k := int(s.b[s.i%len(s.b)]) % (i + 1)
		s.i++
		n[i], n[k] = n[k], n[i]
	}
}

// LabelNode, TupleNode, ConnNode and SignalNode encode the parts.
func LabelNode(l Label) *ber.Node {
	return ber.C(ber.App(18), ber.C(ber.Ctx(0), ber.P(ber.RelOID, ber.OIDBytes(l.Base))), ber.C(ber.Ctx(1), ber.P(ber.UTF8, l.Desc)))
}
func TupleNode(t Tuple) *ber.Node {
	n := ber.C(ber.App(21), ber.C(ber.Ctx(0), ber.P(ber.Int, ber.IntBytes(int64(t.Type)))))
	if len(t.Name) > 0 || !t.Omit {
		n.Kids = append(n.Kids, ber.C(ber.Ctx(1), ber.P(ber.UTF8, t.Name)))
	}
	return n
}
func ConnNode(c Conn) *ber.Node {
	n := ber.C(ber.App(16), ber.C(ber.Ctx(0), ber.P(ber.Int, ber.IntBytes(int64(c.Target)))))
	if len(c.Sources) > 0 || !c.Omit {
		n.Kids = append(n.Kids, ber.C(ber.Ctx(1), ber.P(ber.RelOID, ber.OIDBytes(c.Sources))))
	}
	if c.Op != 0 || !c.Omit {
		n.Kids = append(n.Kids, ber.C(ber.Ctx(2), ber.P(ber.Int, ber.IntBytes(int64(c.Op)))))
	}
	if c.Disp != 0 || !c.Omit {
		n.Kids = append(n.Kids, ber.C(ber.Ctx(3), ber.P(ber.Int, ber.IntBytes(int64(c.Disp)))))
	}
	return n
}
func SignalNode(app int, num int32) *ber.Node {
	return ber.C(ber.App(app), ber.C(ber.Ctx(0), ber.P(ber.Int, ber.IntBytes(int64(num)))))
}

func list(items ...*ber.Node) *ber.Node {
	s := ber.C(ber.Seq)
	for _, it := range items {
		s.Kids = append(s.Kids, ber.C(ber.Ctx(0), it))
	}
	return s
}

// InvocationNode encodes an Invocation.
func InvocationNode(id int64, args []Val, showEmpty bool) *ber.Node {
	n := ber.C(ber.App(22), ber.C(ber.Ctx(0), ber.P(ber.Int, ber.IntBytes(id))))
	if len(args) > 0 || showEmpty {
		var items []*ber.Node
		for _, a := range args {
			items = append(items, a.node())
		}
		n.Kids = append(n.Kids, ber.C(ber.Ctx(1), list(items...)))
	}
	return n
}

// ContentsNode encodes contents of the given kind (without the [1] wrapper).
func ContentsNode(kind string, c *Contents, sh *shuffler) *ber.Node {
	if kind == Cmd {
		return ber.P(ber.Int, ber.IntBytes(int64(c.Flags)))
	}
	set := ber.C(ber.Set)
	keys := make([]int, 0, len(c.V))
	for k := range c.V {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		set.Kids = append(set.Kids, ber.C(ber.Ctx(k), c.V[k].node()))
	}
	if len(c.Ref) > 0 {
		set.Kids = append(set.Kids, ber.C(ber.Ctx(refCtx(kind)), ber.P(ber.RelOID, ber.OIDBytes(c.Ref))))
	}
	if kind == Matrix && (len(c.Labels) > 0 || c.ShowEmpty) {
		var items []*ber.Node
		for _, l := range c.Labels {
			items = append(items, LabelNode(l))
		}
		set.Kids = append(set.Kids, ber.C(ber.Ctx(10), list(items...)))
	}
	if kind == Func {
		for i, ts := range [][]Tuple{c.Args, c.Res} {
			if len(ts) > 0 || c.ShowEmpty {
				var items []*ber.Node
				for _, t := range ts {
					items = append(items, TupleNode(t))
				}
				set.Kids = append(set.Kids, ber.C(ber.Ctx(2+i), list(items...)))
			}
		}
	}
	if sh != nil {
		sh.shuffle(set.Kids)
	}
	return set
}

func (e *Elem) node(sh *shuffler) *ber.Node {
	n := ber.C(e.Tag())
	if e.Qual {
		n.Kids = append(n.Kids, ber.C(ber.Ctx(0), ber.P(ber.RelOID, ber.OIDBytes(e.Path))))
	} else {
		n.Kids = append(n.Kids, ber.C(ber.Ctx(0), ber.P(ber.Int, ber.IntBytes(int64(e.Num)))))
	}
	if e.C != nil {
		n.Kids = append(n.Kids, ber.C(ber.Ctx(1), ContentsNode(e.Kind, e.C, sh)))
	}
	if len(e.Kids) > 0 || e.Lists&8 != 0 {
		col := ber.C(ber.App(4))
		for _, k := range e.Kids {
			col.Kids = append(col.Kids, ber.C(ber.Ctx(0), k.node(sh)))
		}
		n.Kids = append(n.Kids, ber.C(ber.Ctx(2), col))
	}
	if e.Kind == Matrix {
		for i, nums := range [][]int32{e.Targets, e.Sources} {
			if len(nums) > 0 || e.Lists&(1<<i) != 0 {
				var items []*ber.Node
				for _, v := range nums {
					items = append(items, SignalNode(14+i, v))
				}
				n.Kids = append(n.Kids, ber.C(ber.Ctx(3+i), list(items...)))
			}
		}
		if len(e.Conns) > 0 || e.Lists&4 != 0 {
			var items []*ber.Node
			for _, c := range e.Conns {
				items = append(items, ConnNode(c))
			}
			n.Kids = append(n.Kids, ber.C(ber.Ctx(5), list(items...)))
		}
	}
	return n
}

func (s Style) forms() *ber.Forms {
	return &ber.Forms{Choices: s.Forms, Cycle: true, PrimLong: s.PrimLong}
}

// ElemTree is the element's tree of TLVs.
func (s Style) ElemTree(e *Elem) *ber.Node { return e.node(&shuffler{b: s.Order}) }

// RootTree is the tree of a whole message.
func (s Style) RootTree(es []*Elem) *ber.Node {
	sh := &shuffler{b: s.Order}
	col := ber.C(ber.App(11))
	for _, e := range es {
		col.Kids = append(col.Kids, ber.C(ber.Ctx(0), e.node(sh)))
	}
	return ber.C(ber.App(0), col)
}

// Elem and Root serialise.
func (s Style) Elem(e *Elem) []byte    { return s.ElemTree(e).Append(nil, s.forms()) }
func (s Style) Root(es []*Elem) []byte { return s.RootTree(es).Append(nil, s.forms()) }

// Contents serialises contents alone.
func (s Style) Contents(kind string, c *Contents) []byte {
	return ContentsNode(kind, c, &shuffler{b: s.Order}).Append(nil, s.forms())
}

// Tree serialises any node in this style.
func (s Style) Tree(n *ber.Node) []byte { return n.Append(nil, s.forms()) }

// ---- decoding ----

type decodeError string

func (d decodeError) Error() string { return string(d) }

func fail(format string, a ...any) { panic(decodeError(fmt.Sprintf(format, a...))) }

func catch(err *error) {
	if p := recover(); p != nil {
		d, ok := p.(decodeError)
		if !ok {
			panic(p)
		}
		*err = d
	}
}

func want(n *ber.Node, tag byte, what string) *ber.Node {
	if n.Tag != tag {
		fail("%s has tag 0x%x, want 0x%x", what, n.Tag, tag)
	}
	return n
}

func only(n *ber.Node, what string) *ber.Node {
	if len(n.Kids) != 1 {
		fail("%s holds %d values, want 1", what, len(n.Kids))
	}
	return n.Kids[0]
}

func intOf(n *ber.Node, what string) int64 {
	want(n, ber.Int, what)
	v, _, err := ber.ParseInt(n.Prim)
	if err != nil {
		fail("%s: %v", what, err)
	}
	return v
}

func int32Of(n *ber.Node, what string) int32 {
	v := intOf(n, what)
	if v != int64(int32(v)) {
		fail("%s is %d, above 32 bits", what, v)
	}
	return int32(v)
}

func oidOf(n *ber.Node, what string) []int32 {
	want(n, ber.RelOID, what)
	o, err := ber.ParseOID(n.Prim)
	if err != nil {
		fail("%s: %v", what, err)
	}
	return o
}

func strOf(n *ber.Node, what string) []byte {
	return append([]byte{}, want(n, ber.UTF8, what).Prim...)
}

func valOf(n *ber.Node, what string) Val {
	switch n.Tag {
	case ber.UTF8:
		return Val{T: "str", S: append([]byte{}, n.Prim...)}
	case ber.BitStr:
		return Val{T: "bits", S: append([]byte{}, n.Prim...)}
	case ber.Int:
		return Val{T: "int", I: intOf(n, what)}
	case ber.Bool:
		if len(n.Prim) != 1 {
			fail("%s: boolean of %d octets", what, len(n.Prim))
		}
		return Val{T: "bool", B: n.Prim[0] != 0}
	case ber.Real:
		r, err := ber.ParseReal(n.Prim)
		if err != nil {
			fail("%s: %v", what, err)
		}
		return Val{T: "real", R: math.Float64bits(r)}
	case ber.RelOID:
		return Val{T: "oid", O: oidOf(n, what)}
	}
	fail("%s: value with tag 0x%x", what, n.Tag)
	return Val{}
}

func listOf(n *ber.Node, what string) []*ber.Node {
	s := want(only(n, what), ber.Seq, what)
	var out []*ber.Node
	for _, k := range s.Kids {
		out = append(out, only(want(k, ber.Ctx(0), what+" entry"), what+" entry"))
	}
	return out
}

func ctxNum(n *ber.Node, what string) int {
	if n.Tag&0xe0 != 0xa0 {
		fail("%s holds tag 0x%x instead of a context tag", what, n.Tag)
	}
	return int(n.Tag & 0x1f)
}

func labelOf(n *ber.Node) Label {
	want(n, ber.App(18), "label")
	if len(n.Kids) != 2 {
		fail("label has %d fields", len(n.Kids))
	}
	return Label{
		Base: oidOf(only(want(n.Kids[0], ber.Ctx(0), "label path"), "label path"), "label path"),
		Desc: strOf(only(want(n.Kids[1], ber.Ctx(1), "label text"), "label text"), "label text"),
	}
}

func tupleOf(n *ber.Node) Tuple {
	want(n, ber.App(21), "tuple")
	if len(n.Kids) != 2 {
		fail("tuple has %d fields", len(n.Kids))
	}
	return Tuple{
		Type: int32Of(only(want(n.Kids[0], ber.Ctx(0), "tuple type"), "tuple type"), "tuple type"),
		Name: strOf(only(want(n.Kids[1], ber.Ctx(1), "tuple name"), "tuple name"), "tuple name"),
	}
}

func connOf(n *ber.Node) Conn {
	want(n, ber.App(16), "connection")
	if len(n.Kids) == 0 {
		fail("connection without target")
	}
	c := Conn{Target: int32Of(only(want(n.Kids[0], ber.Ctx(0), "connection target"), "connection target"), "connection target")}
	last := 0
	for _, k := range n.Kids[1:] {
		i := ctxNum(k, "connection")
		if i <= last {
			fail("connection field %d out of order", i)
		}
		last = i
		switch i {
		case 1:
			c.Sources = oidOf(only(k, "connection sources"), "connection sources")
		case 2:
			c.Op = int32Of(only(k, "operation"), "operation")
		case 3:
			c.Disp = int32Of(only(k, "disposition"), "disposition")
		default:
			fail("connection field %d", i)
		}
	}
	return c
}

func signalOf(n *ber.Node, app int) int32 {
	want(n, ber.App(app), "signal")
	return int32Of(only(want(only(n, "signal"), ber.Ctx(0), "signal number"), "signal number"), "signal number")
}

// DecodeConn, DecodeLabel, DecodeTuple, DecodeSignal and DecodeInvocation decode parts.
func DecodeConn(n *ber.Node) (c Conn, err error)   { defer catch(&err); return connOf(n), nil }
func DecodeLabel(n *ber.Node) (l Label, err error) { defer catch(&err); return labelOf(n), nil }
func DecodeTuple(n *ber.Node) (t Tuple, err error) { defer catch(&err); return tupleOf(n), nil }
func DecodeSignal(n *ber.Node, app int) (v int32, err error) {
	defer catch(&err)
	return signalOf(n, app), nil
}
func DecodeInvocation(n *ber.Node) (id int64, args []Val, err error) {
	defer catch(&err)
	want(n, ber.App(22), "invocation")
	if len(n.Kids) < 1 || len(n.Kids) > 2 {
		fail("invocation of %d fields", len(n.Kids))
	}
	id = intOf(only(want(n.Kids[0], ber.Ctx(0), "invocation id"), "invocation id"), "invocation id")
	if len(n.Kids) == 2 {
		for _, a := range listOf(want(n.Kids[1], ber.Ctx(1), "invocation arguments"), "invocation arguments") {
			args = append(args, valOf(a, "argument"))
		}
	}
	return id, args, nil
}

// DecodeContents decodes contents of the given kind.
func DecodeContents(kind string, n *ber.Node) (c *Contents, err error) {
	defer catch(&err)
	return contentsOf(kind, n), nil
}

func contentsOf(kind string, n *ber.Node) *Contents {
	c := &Contents{V: map[int]Val{}}
	if kind == Cmd {
		c.Flags = int32Of(n, "field flags")
		return c
	}
	want(n, ber.Set, "contents")
	max := map[string]int{Node: 5, Param: 18, Matrix: 12, Func: 3}[kind]
	seen := map[int]bool{}
	for _, k := range n.Kids {
		i := ctxNum(k, "contents")
		what := fmt.Sprintf("%s field %d", kind, i)
		if i > max {
			fail("%s is unknown", what)
		}
		if seen[i] {
			fail("%s twice", what)
		}
		seen[i] = true
		switch {
		case i == refCtx(kind):
			c.Ref = oidOf(only(k, what), what)
		case kind == Matrix && i == 10:
			for _, l := range listOf(k, "labels") {
				c.Labels = append(c.Labels, labelOf(l))
			}
		case kind == Func && i >= 2:
			var ts []Tuple
			for _, t := range listOf(k, "tuples") {
				ts = append(ts, tupleOf(t))
			}
			if i == 2 {
				c.Args = ts
			} else {
				c.Res = ts
			}
		default:
			c.V[i] = valOf(only(k, what), what)
		}
	}
	return c
}

var kindOfTag = map[byte]string{}

func init() {
	for k, v := range plainTag {
		kindOfTag[ber.App(v)] = k
	}
	for k, v := range qualTag {
		kindOfTag[ber.App(v)] = k
	}
}

func elemOf(n *ber.Node) *Elem {
	kind, ok := kindOfTag[n.Tag]
	if !ok {
		fail("element with tag 0x%x", n.Tag)
	}
	e := &Elem{Kind: kind}
	if q, ok := qualTag[kind]; ok && n.Tag == ber.App(q) {
		e.Qual = true
	}
	if len(n.Kids) == 0 {
		fail("%s without a number", kind)
	}
	id := only(want(n.Kids[0], ber.Ctx(0), "element number"), "element number")
	if e.Qual {
		e.Path = oidOf(id, "path")
		if len(e.Path) == 0 {
			fail("empty path")
		}
		e.Num = e.Path[len(e.Path)-1]
	} else {
		e.Num = int32Of(id, "number")
	}
	last := 0
	for _, k := range n.Kids[1:] {
		i := ctxNum(k, kind)
		if i <= last {
			fail("%s field %d out of order", kind, i)
		}
		last = i
		switch {
		case i == 1:
			e.C = contentsOf(kind, only(k, "contents"))
		case i == 2:
			col := want(only(k, "children"), ber.App(4), "children")
			for _, it := range col.Kids {
				e.Kids = append(e.Kids, elemOf(only(want(it, ber.Ctx(0), "child"), "child")))
			}
			e.Lists |= 8
		case kind == Matrix && (i == 3 || i == 4):
			for _, s := range listOf(k, "signals") {
				v := signalOf(s, 11+i)
				if i == 3 {
					e.Targets = append(e.Targets, v)
				} else {
					e.Sources = append(e.Sources, v)
				}
			}
			e.Lists |= 1 << (i - 3)
		case kind == Matrix && i == 5:
			for _, s := range listOf(k, "connections") {
				e.Conns = append(e.Conns, connOf(s))
			}
			e.Lists |= 4
		default:
			fail("%s field %d", kind, i)
		}
	}
	return e
}

// DecodeElem decodes one element.
func DecodeElem(n *ber.Node) (e *Elem, err error) { defer catch(&err); return elemOf(n), nil }

// DecodeRoot decodes a message.
func DecodeRoot(n *ber.Node) (es []*Elem, err error) {
	defer catch(&err)
	want(n, ber.App(0), "root")
	if len(n.Kids) == 0 {
		return nil, nil
	}
	col := want(only(n, "root"), ber.App(11), "root collection")
	for _, k := range col.Kids {
		es = append(es, elemOf(only(want(k, ber.Ctx(0), "root entry"), "root entry")))
	}
	return es, nil
}

// ParseRoot and ParseElem go from bytes; nothing may follow.
func ParseRoot(b []byte) ([]*Elem, error) {
	n, rest, err := ber.Parse(b, ber.Rules{})
	if err != nil {
		return nil, err
	}
	if len(rest) > 0 {
		return nil, fmt.Errorf("%d bytes after the message", len(rest))
	}
	return DecodeRoot(n)
}
func ParseElem(b []byte) (*Elem, error) {
	n, rest, err := ber.Parse(b, ber.Rules{})
	if err != nil {
		return nil, err
	}
	if len(rest) > 0 {
		return nil, fmt.Errorf("%d bytes after the element", len(rest))
	}
	return DecodeElem(n)
}

// ---- canonical text ----

// Text renders contents canonically: absent and empty lists are the same, the
// documented defaults of a matrix are filled in.
func (c *Contents) Text(kind, ind string) string {
	var sb strings.Builder
	if kind == Cmd {
		fmt.Fprintf(&sb, "%sflags %d\n", ind, c.Flags)
		return sb.String()
	}
	v := map[int]Val{}
	for k, x := range c.V {
		v[k] = x
	}
	if kind == Matrix {
		for _, k := range []int{2, 3} {
			if _, ok := v[k]; !ok {
				v[k] = Val{T: "int"}
			}
		}
	}
	keys := make([]int, 0, len(v))
	for k := range v {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		fmt.Fprintf(&sb, "%sfield %d = %s\n", ind, k, v[k])
	}
	if len(c.Ref) > 0 {
		fmt.Fprintf(&sb, "%stemplate %v\n", ind, c.Ref)
	}
	for _, l := range c.Labels {
		fmt.Fprintf(&sb, "%slabel %v %q\n", ind, l.Base, l.Desc)
	}
	for _, t := range c.Args {
		fmt.Fprintf(&sb, "%sargument %d %q\n", ind, t.Type, t.Name)
	}
	for _, t := range c.Res {
		fmt.Fprintf(&sb, "%sresult %d %q\n", ind, t.Type, t.Name)
	}
	return sb.String()
}

func (c Conn) Text() string {
	return fmt.Sprintf("%d <- %v op %d disp %d", c.Target, c.Sources, c.Op, c.Disp)
}

// Text renders an element canonically, children by number.
func (e *Elem) Text() string { return e.text("") }

func (e *Elem) text(ind string) string {
	var sb strings.Builder
	if e.Qual {
		fmt.Fprintf(&sb, "%squalified %s %v\n", ind, e.Kind, e.Path)
	} else {
		fmt.Fprintf(&sb, "%s%s %d\n", ind, e.Kind, e.Num)
	}
	in := ind + "  "
	if e.C != nil {
		fmt.Fprintf(&sb, "%scontents\n%s", in, e.C.Text(e.Kind, in+"  "))
	}
	if e.Kind == Matrix {
		if len(e.Targets) > 0 {
			fmt.Fprintf(&sb, "%stargets %v\n", in, e.Targets)
		}
		if len(e.Sources) > 0 {
			fmt.Fprintf(&sb, "%ssources %v\n", in, e.Sources)
		}
		for _, c := range e.Conns {
			if c.Sources == nil {
				c.Sources = []int32{}
			}
			fmt.Fprintf(&sb, "%sconnection %s\n", in, c.Text())
		}
	}
	for _, k := range SortedByNumber(e.Kids) {
		sb.WriteString(k.text(in))
	}
	return sb.String()
}

// SortedByNumber returns the elements in order of their number.
func SortedByNumber(es []*Elem) []*Elem {
	out := append([]*Elem{}, es...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Number() < out[j].Number() })
	return out
}

// RootText renders a message.
func RootText(es []*Elem) string {
	var sb strings.Builder
	for _, e := range SortedByNumber(es) {
		sb.WriteString(e.text(""))
	}
	return sb.String()
}

// Shallow is what an element's encoding carries: itself and its children, and
// below those only what hangs under children without contents.
func (e *Elem) Shallow() *Elem {
	c := *e
	c.Kids = nil
	for _, k := range e.Kids {
		c.Kids = append(c.Kids, k.asChild())
	}
	return &c
}

func (e *Elem) asChild() *Elem {
	if e.C == nil {
		return e.Shallow()
	}
	c := *e
	c.Kids = nil
	return &c
}

// Diff shows the first line where two canonical texts differ.
func Diff(got, want string) string {
	if got == want {
		return ""
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; ; i++ {
		a, b := "<nothing>", "<nothing>"
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			return fmt.Sprintf("line %d: got %.300q, want %.300q", i+1, strings.TrimSpace(a), strings.TrimSpace(b))
		}
	}
}

// Clone copies deeply.
func (e *Elem) Clone() *Elem {
	c := *e
	c.Path = append([]int32{}, e.Path...)
	c.Targets = append([]int32{}, e.Targets...)
	c.Sources = append([]int32{}, e.Sources...)
	c.Conns = append([]Conn{}, e.Conns...)
	if e.C != nil {
		cc := *e.C
		c.C = &cc
	}
	c.Kids = nil
	for _, k := range e.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return &c
}

// Walk visits e and everything below it.
func (e *Elem) Walk(f func(e *Elem, depth int)) { e.walk(f, 0) }
func (e *Elem) walk(f func(e *Elem, depth int), d int) {
	f(e, d)
	for _, k := range e.Kids {
		k.walk(f, d+1)
	}
}

// KindOf tells an element's kind and whether it is qualified.
func KindOf(tag byte) (kind string, qual bool) {
	kind = kindOfTag[tag]
	q, ok := qualTag[kind]
	return kind, ok && tag == ber.App(q)
}

// Node is the value as a TLV.
func (v Val) Node() *ber.Node { return v.node() }
