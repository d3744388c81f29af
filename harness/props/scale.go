package props

import (
	"fmt"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"pgregory.net/rapid"
	"vpharness/ber"
	"vpharness/engine"
)

// ScaleCase is a long input of one shape, and a shorter one of the same: what
// decoding costs grows with the input, not faster.
type ScaleCase struct {
	Family string
	N      int  // how often
	Same   bool // the same number over and over
	Unit   Blob
	Forms  []byte // how containers are spelled
	Indef  bool   // strings of indefinite length
	Cut    int    // bytes cut off the end
	Flip   int    // a bit changed: position from the end, 0 none
}

// families, and how often each may repeat its part
var scaleFamilies = []struct {
	name string
	most int
}{
	{"text", 120000}, {"value text", 120000}, {"value bits", 120000}, {"value octets", 120000}, {"roots", 4000}, {"children", 4000}, {"qualified", 4000},
	{"commands", 4000}, {"targets", 10000}, {"sources", 10000}, {"connections", 5000}, {"connections twice", 180000}, {"connection", 50000}, {"arguments", 5000}, {"results", 5000}, {"invocation", 8000},
	{"labels", 5000}, {"path", 50000}, {"repeated field", 10000}, {"unknown fields", 10000}, {"chain", 200}, {"wide chain", 60}, {"integer", 50000},
	{"real", 50000}, {"zeros", 60000}, {"open strings", 20000}, {"open containers", 2000}, {"claims", 20000},
}

func genScale(t *rapid.T) ScaleCase {
	f := rapid.SampledFrom(scaleFamilies).Draw(t, "family")
	c := ScaleCase{Family: f.name}
	c.N = rapid.OneOf(rapid.IntRange(f.most/2, f.most), rapid.IntRange(f.most/20, f.most)).Draw(t, "n")
	c.Same = rapid.IntRange(0, 3).Draw(t, "same") == 0
	c.Unit = Blob{Pat: rapid.SliceOfN(rapid.ByteRange(1, 255), 1, 4).Draw(t, "unit"), N: rapid.IntRange(1, 12).Draw(t, "unitLen")}
	c.Forms = rapid.SliceOfN(rapid.ByteRange(0, 5), 1, 6).Draw(t, "forms")
	c.Indef = rapid.Bool().Draw(t, "indef")
	if rapid.IntRange(0, 3).Draw(t, "cuts") == 0 {
		c.Cut = rapid.IntRange(1, 20).Draw(t, "cut")
	}
	if rapid.IntRange(0, 3).Draw(t, "flips") == 0 {
		c.Flip = rapid.IntRange(1, 1<<18).Draw(t, "flip")
	}
	return c
}

// build gives the input with the part repeated n times, and its decoder.
func (c ScaleCase) build(n int) (string, []byte) {
	unit := c.Unit.Bytes()
	long := Blob{Pat: c.Unit.Pat, N: n}.Bytes()
	num := func(i int) *ber.Node {
		if c.Same {
			i = 1
		}
		return ber.C(ber.Ctx(0), ber.P(ber.Int, ber.IntBytes(int64(i))))
	}
	str := func(tag byte, s []byte) *ber.Node {
		p := ber.P(tag, s)
		p.Indefinite = c.Indef
		return p
	}
	seq := func(tag byte, n int, item func(i int) *ber.Node) *ber.Node {
		s := ber.C(tag)
		for i := 0; i < n; i++ {
			s.Kids = append(s.Kids, item(i))
		}
		return s
	}
	node := func(i int, more ...*ber.Node) *ber.Node {
		e := ber.C(ber.App(3), num(i), ber.C(ber.Ctx(1), ber.C(ber.Set, ber.C(ber.Ctx(0), str(ber.UTF8, unit)))))
		e.Kids = append(e.Kids, more...)
		return e
	}
	kids := func(n int, item func(i int) *ber.Node) *ber.Node {
		return ber.C(ber.Ctx(2), seq(ber.App(4), n, func(i int) *ber.Node { return ber.C(ber.Ctx(0), item(i)) }))
	}
	message := func(es ...*ber.Node) *ber.Node {
		return ber.C(ber.App(0), seq(ber.App(11), len(es), func(i int) *ber.Node { return ber.C(ber.Ctx(0), es[i]) }))
	}
	oid := func(tag byte, n int) *ber.Node {
		ids := make([]byte, 0, n)
		for i := 0; i < n; i++ {
			ids = append(ids, byte(int(c.Unit.Pat[i%len(c.Unit.Pat)])&0x7f))
		}
		return ber.P(tag, ids)
	}
	integer := ber.P(ber.Int, append(make([]byte, n), 1))
	list := func(tag, field int, inner *ber.Node) *ber.Node {
		return message(ber.C(ber.App(tag), num(1), ber.C(ber.Ctx(field), inner)))
	}
	items := func(item func(i int) *ber.Node) *ber.Node {
		return seq(ber.Seq, n, func(i int) *ber.Node { return ber.C(ber.Ctx(0), item(i)) })
	}
	contents := func(tag int, kids ...*ber.Node) *ber.Node {
		return message(ber.C(ber.App(tag), num(1), ber.C(ber.Ctx(1), ber.C(ber.Set, kids...))))
	}
	target, root := "message", (*ber.Node)(nil)
	switch c.Family {
	case "text":
		root = contents(3, ber.C(ber.Ctx(1), str(ber.UTF8, long)))
	case "value text":
		target, root = "value", ber.C(ber.Ctx(2), str(ber.UTF8, long))
	case "value bits":
		target, root = "value", ber.C(ber.Ctx(2), str(ber.BitStr, append([]byte{0}, long...)))
	case "value octets":
		target, root = "value", ber.C(ber.Ctx(2), str(ber.Octet, long))
	case "roots":
		es := make([]*ber.Node, n)
		for i := range es {
			es[i] = node(i)
		}
		root = message(es...)
	case "children":
		root = message(node(1, kids(n, func(i int) *ber.Node { return node(i) })))
	case "qualified":
		es := make([]*ber.Node, n)
		for i := range es {
			p := ber.OIDBytes([]int32{1, int32(i)})
			if c.Same {
				p = ber.OIDBytes([]int32{int32(i)})
			}
			es[i] = ber.C(ber.App(10), ber.C(ber.Ctx(0), ber.P(ber.RelOID, p)), ber.C(ber.Ctx(1), ber.C(ber.Set)))
		}
		root = message(es...)
	case "commands":
		root = message(node(1, kids(n, func(i int) *ber.Node { return ber.C(ber.App(2), num(32)) })))
	case "targets", "sources":
		root = list(13, map[string]int{"targets": 3, "sources": 4}[c.Family], items(func(i int) *ber.Node {
			return ber.C(ber.App(map[string]int{"targets": 14, "sources": 15}[c.Family]), num(i))
		}))
	case "connections", "connections twice":
		root = list(13, 5, items(func(i int) *ber.Node {
			if c.Family == "connections twice" {
				// the second time, each meets its predecessor
				return ber.C(ber.App(16), num(i))
			}
			return ber.C(ber.App(16), num(i), ber.C(ber.Ctx(1), oid(ber.RelOID, len(unit))))
		}))
	case "connection":
		target, root = "conn", ber.C(ber.App(16), num(1), ber.C(ber.Ctx(1), oid(ber.RelOID, n)))
	case "arguments", "results":
		root = contents(19, ber.C(ber.Ctx(map[string]int{"arguments": 2, "results": 3}[c.Family]), items(func(i int) *ber.Node {
			return ber.C(ber.App(21), ber.C(ber.Ctx(0), ber.P(ber.Int, []byte{1})), ber.C(ber.Ctx(1), str(ber.UTF8, unit)))
		})))
	case "invocation":
		target, root = "invocation", ber.C(ber.App(22), num(1), ber.C(ber.Ctx(1), items(func(i int) *ber.Node { return str(ber.UTF8, unit) })))
	case "labels":
		root = contents(13, ber.C(ber.Ctx(10), items(func(i int) *ber.Node {
			return ber.C(ber.App(18), ber.C(ber.Ctx(0), oid(ber.RelOID, len(unit))), ber.C(ber.Ctx(1), str(ber.UTF8, unit)))
		})))
	case "path":
		root = message(ber.C(ber.App(10), ber.C(ber.Ctx(0), oid(ber.RelOID, n))))
	case "repeated field":
		root = contents(3)
		set := root.Kids[0].Kids[0].Kids[0].Kids[1].Kids[0]
		for i := 0; i < n; i++ {
			set.Kids = append(set.Kids, ber.C(ber.Ctx(i%2), str(ber.UTF8, unit)))
		}
	case "unknown fields":
		root = contents(3)
		set := root.Kids[0].Kids[0].Kids[0].Kids[1].Kids[0]
		for i := 0; i < n; i++ {
			set.Kids = append(set.Kids, ber.C(ber.Ctx(20+i%5), ber.P(ber.Int, []byte{1})))
		}
	case "chain", "wide chain":
		e := node(1)
		for i := 0; i < n; i++ {
			in := e
			w := 1
			if c.Family == "wide chain" {
				w = 20
			}
			e = node(i, kids(w, func(k int) *ber.Node {
				if k == 0 {
					return in
				}
				return node(n + k)
			}))
		}
		root = message(e)
	case "integer":
		target, root = "target", ber.C(ber.App(14), ber.C(ber.Ctx(0), integer))
	case "real":
		target, root = "value", ber.C(ber.Ctx(2), ber.P(ber.Real, append([]byte{0x80, 1}, long...)))
	case "zeros":
		return "message", append([]byte{0x60, 0x80, 0x6b, 0x80}, make([]byte, n)...)
	case "open strings":
		return "message", Blob{Pat: []byte{0x6b, 0x80, 0xa0, 0x80, 0x63, 0x80, 0x0c, 0x80}, N: n}.Bytes()
	case "open containers":
		return "message", append([]byte{0x60, 0x80}, Blob{Pat: []byte{0x6b, 0x80, 0xa0, 0x80, 0x63, 0x80, 0xa0, 3, 2, 1, 1, 0xa2, 0x80, 0x64, 0x80}, N: n}.Bytes()...)
	case "claims": // lengths beyond what is there
		return "message", Blob{Pat: append([]byte{0x60, 0x84, 0x7f, 0xff, 0xff, 0xff, 0x6b, 0x84, 0x7f}, unit...), N: n}.Bytes()
	default:
		panic(c.Family)
	}
	return target, root.Append(nil, &ber.Forms{Choices: c.Forms, Cycle: true})
}

func scale(c ScaleCase, o *engine.Obs) error {
	o.Label("%s", c.Family)
	target, b := c.build(c.N)
	b = b[:len(b)-c.Cut%(len(b)+1)]
	if c.Flip > 0 && len(b) > 0 {
		b[len(b)-1-c.Flip%len(b)] ^= 1 << uint(c.Flip%8)
	}
	var e errors.Error
	var used uint64
	if target != "message" {
		used = engine.AllocDuring(func() { _, e = hostileDecode(target, b) })
	} else {
		tree := embertree.NewTree()
		used = engine.AllocDuring(func() { e = tree.Decode(asn1.NewASNReader(b)) })
		if used2 := engine.AllocDuring(func() { _ = tree.Decode(asn1.NewASNReader(b)) }); used2 > used {
			used = used2
		}
		if c.N < 5000 {
			useTree(tree)
		}
	}
	if e == nil {
		o.Label("accepted")
	} else {
		o.Label("rejected")
	}
	// what a legal message costs is about 100 bytes for each of its own, and
	// more only where elements are nested
	factor := uint64(400)
	if c.Family == "chain" || c.Family == "wide chain" {
		factor = 2000
	}
	if used > 1<<20+factor*uint64(len(b)) {
		return fmt.Errorf("decoding %d bytes (%s, %d times) allocated %d bytes", len(b), c.Family, c.N, used)
	}
	return nil
}
