package props

import (
	"pgregory.net/rapid"
	"vpharness/glow"
)

// treeOpts shape generated elements.
type treeOpts struct {
	settable bool // only fields the library's setters reach
	depth    int
	budget   int // elements
	bigText  bool
	noCmd    bool
	bare     bool // elements without contents allowed
	wide     int  // children of the next element to get any
	lean     bool // few fields
}

// shape makes few of the trees very deep or very wide.
func (o *treeOpts) shape(t *rapid.T) *treeOpts {
	switch rapid.IntRange(0, 79).Draw(t, "shape") {
	case 0:
		o.depth, o.budget = rapid.IntRange(5, 24).Draw(t, "veryDeep"), o.budget+10
	case 1:
		o.wide, o.lean = rapid.IntRange(30, 300).Draw(t, "veryWide"), true
		o.budget += o.wide
	}
	return o
}

// genCount draws how many things a list holds: few, or once in a while many.
func genCount(t *rapid.T, most int, what string) int {
	if rapid.IntRange(0, 99).Draw(t, what+"Many") == 0 {
		return rapid.OneOf(rapid.IntRange(most, 150), rapid.IntRange(most, 150), rapid.IntRange(150, 400)).Draw(t, what+"N")
	}
	return rapid.IntRange(0, most).Draw(t, what)
}

func genVal(t *rapid.T, kinds ...string) glow.Val {
	v := glow.Val{T: rapid.SampledFrom(kinds).Draw(t, "valType")}
	switch v.T {
	case "str":
		v.S = genText(t)
	case "bits":
		if rapid.IntRange(0, 15).Draw(t, "longBits") == 0 {
			v.S = genBlob(t, false).Bytes()
		} else {
			v.S = rapid.SliceOfN(byteGen, 0, 20).Draw(t, "bits")
		}
	case "int":
		v.I = genI64(t)
	case "bool":
		v.B = rapid.Bool().Draw(t, "b")
	case "real":
		v.R = genReal(t)
	case "oid":
		v.O = genOID(t, 1)
	}
	return v
}

var anyVal = []string{"str", "bits", "int", "bool", "real"}

// fields of each kind: context number and possible types
type fieldSpec struct {
	k     int
	types []string
	fixed int // >0: integers 0..fixed-1
}

func fieldsOf(kind string, settable bool) []fieldSpec {
	one := func(k int, t ...string) fieldSpec { return fieldSpec{k: k, types: t} }
	switch kind {
	case glow.Node:
		return []fieldSpec{one(0, "str"), one(1, "str"), one(2, "bool"), one(3, "bool"), one(4, "str")}
	case glow.Param:
		fs := []fieldSpec{one(0, "str"), one(1, "str"), one(2, anyVal...), one(3, anyVal...), one(4, anyVal...), one(6, "str"), one(7, "str"),
			one(8, "int"), one(9, "bool"), one(10, "str"), one(11, "int"), one(12, anyVal...), one(14, "int")}
		if settable {
			return append(fs, one(5, "str"), one(13, "str"))
		}
		return append(fs, one(5, "int"), one(13, "int"), one(17, "str"))
	case glow.Matrix:
		fs := []fieldSpec{one(0, "str"), one(1, "str"), {k: 2, types: []string{"int"}, fixed: 3}, {k: 3, types: []string{"int"}, fixed: 2},
			one(4, "int"), one(5, "int"), one(6, "int"), one(7, "int"), one(9, "int"), one(11, "str")}
		if settable {
			return append(fs, one(8, "oid"))
		}
		return append(fs, one(8, "oid", "int"))
	case glow.Func:
		return []fieldSpec{one(0, "str"), one(1, "str")}
	}
	return nil
}

func genTuple(t *rapid.T) glow.Tuple {
	x := glow.Tuple{Type: int32(rapid.IntRange(0, 7).Draw(t, "ptype"))}
	if x.Omit = rapid.IntRange(0, 3).Draw(t, "nameless") == 0; !x.Omit {
		x.Name = genText(t)
	}
	return x
}

func genTuples(t *rapid.T) []glow.Tuple {
	n := genCount(t, 4, "tuples")
	var out []glow.Tuple
	for i := 0; i < n; i++ {
		out = append(out, genTuple(t))
	}
	return out
}

func genContents(t *rapid.T, kind string, settable bool) *glow.Contents {
	c := &glow.Contents{V: map[int]glow.Val{}}
	if kind == glow.Cmd {
		c.Flags = int32(rapid.IntRange(-2, 5).Draw(t, "flags"))
		return c
	}
	density := rapid.IntRange(0, 3).Draw(t, "density")
	for _, f := range fieldsOf(kind, settable) {
		if rapid.IntRange(0, 3).Draw(t, "has") > density {
			continue
		}
		if f.fixed > 0 {
			c.V[f.k] = glow.Val{T: "int", I: int64(rapid.IntRange(0, f.fixed-1).Draw(t, "enum"))}
		} else {
			c.V[f.k] = genVal(t, f.types...)
		}
	}
	if kind == glow.Matrix && settable {
		for _, k := range []int{2, 3} {
			if _, ok := c.V[k]; !ok {
				c.V[k] = glow.Val{T: "int"}
			}
		}
	}
	c.ShowEmpty = rapid.Bool().Draw(t, "showEmpty")
	hasRef := kind == glow.Node || (!settable && kind != glow.Func)
	if hasRef && rapid.IntRange(0, 3).Draw(t, "hasRef") == 0 {
		c.Ref = genOID(t, 1)
	}
	if kind == glow.Func {
		c.Args, c.Res = genTuples(t), genTuples(t)
	}
	if kind == glow.Matrix && !settable {
		n := genCount(t, 3, "labels")
		for i := 0; i < n; i++ {
			c.Labels = append(c.Labels, glow.Label{Base: genOID(t, 0), Desc: genText(t)})
		}
	}
	return c
}

func genConn(t *rapid.T) glow.Conn {
	c := glow.Conn{Target: genI32(t), Op: int32(rapid.IntRange(0, 2).Draw(t, "op")), Disp: int32(rapid.IntRange(0, 3).Draw(t, "disp"))}
	c.Sources = genOID(t, 0)
	c.Omit = rapid.Bool().Draw(t, "omit")
	return c
}

func genNums(t *rapid.T) []int32 {
	n := genCount(t, 4, "nums")
	var out []int32
	for i := 0; i < n; i++ {
		if rapid.Bool().Draw(t, "numSmall") {
			out = append(out, int32(rapid.IntRange(0, 20).Draw(t, "num")))
		} else {
			out = append(out, genI32(t))
		}
	}
	return out
}

var contentKinds = []string{glow.Node, glow.Node, glow.Node, glow.Param, glow.Param, glow.Matrix, glow.Func}

func genBody(t *rapid.T, e *glow.Elem, o *treeOpts) {
	if e.Kind == glow.Matrix {
		e.Lists = rapid.IntRange(0, 15).Draw(t, "lists")
		if rapid.Bool().Draw(t, "hasLists") {
			e.Targets, e.Sources = genNums(t), genNums(t)
			n := genCount(t, 3, "conns")
			for i := 0; i < n; i++ {
				e.Conns = append(e.Conns, genConn(t))
			}
		}
	} else if rapid.IntRange(0, 7).Draw(t, "emptyKids") == 0 && e.Kind != glow.Cmd {
		e.Lists = 8
	}
	need := e.Kind == glow.Cmd || (o.settable && e.Kind == glow.Matrix)
	if need || !o.bare || rapid.IntRange(0, 5).Draw(t, "hasContents") > 0 {
		e.C = genContents(t, e.Kind, o.settable)
	}
}

func genElem(t *rapid.T, o *treeOpts, depth int, num int32) *glow.Elem {
	o.budget--
	e := &glow.Elem{Num: num}
	if !o.noCmd && rapid.IntRange(0, 11).Draw(t, "isCmd") == 0 {
		e.Kind = glow.Cmd
	} else {
		e.Kind = rapid.SampledFrom(contentKinds).Draw(t, "kind")
	}
	if o.lean {
		if e.Kind == glow.Matrix || e.Kind == glow.Cmd {
			e.Kind = glow.Node
		}
		if rapid.Bool().Draw(t, "leanContents") {
			e.C = &glow.Contents{V: map[int]glow.Val{0: {T: "str", S: []byte{byte(num)}}}}
		}
	} else {
		genBody(t, e, o)
	}
	if e.Kind != glow.Cmd && depth > 0 {
		e.Kids = genKids(t, o, depth-1)
	}
	return e
}

func genKids(t *rapid.T, o *treeOpts, depth int) []*glow.Elem {
	n := rapid.IntRange(0, 4).Draw(t, "kids")
	if rapid.IntRange(0, 25).Draw(t, "wide") == 0 {
		n = rapid.IntRange(4, 40).Draw(t, "kidsWide")
	}
	wide := o.wide > 0 && n > 0
	if wide {
		n, o.wide = o.wide, 0
	}
	var out []*glow.Elem
	used := map[int32]bool{}
	for i := 0; i < n && o.budget > 0; i++ {
		num := int32(i)
		if !wide {
			num = genID(t)
		}
		if used[num] {
			continue
		}
		used[num] = true
		d := depth
		if wide && i%16 != 3 {
			// leave the budget to the siblings
			d = 0
		}
		out = append(out, genElem(t, o, d, num))
	}
	return out
}

// genTop draws the elements of one message: plain or qualified.
func genTop(t *rapid.T, o *treeOpts) []*glow.Elem {
	n := rapid.IntRange(1, 4).Draw(t, "top")
	var out []*glow.Elem
	used := map[int32]bool{}
	for i := 0; i < n && (o.budget > 0 || i == 0); i++ {
		num := genID(t)
		if used[num] {
			continue
		}
		used[num] = true
		e := genElem(t, o, o.depth, num)
		if e.Kind != glow.Cmd && rapid.IntRange(0, 2).Draw(t, "qualified") == 0 {
			e.Qual = true
			e.Path = append(genOID(t, 0), num)
		}
		out = append(out, e)
	}
	return out
}

func genStyle(t *rapid.T) glow.Style {
	switch rapid.IntRange(0, 3).Draw(t, "style") {
	case 0:
		return glow.Style{}
	case 1:
		return glow.Style{Forms: []byte{1}}
	}
	return glow.Style{
		Forms:    rapid.SliceOfN(rapid.ByteRange(0, 5), 0, 40).Draw(t, "forms"),
		Order:    rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "order"),
		PrimLong: rapid.Bool().Draw(t, "primLong"),
	}
}
