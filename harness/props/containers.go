package props

import (
	"fmt"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"
	"pgregory.net/rapid"
	"vpharness/ber"
	"vpharness/engine"
)

// Box is a container holding primitives and containers.
type Box struct {
	Tag   byte
	Items []Item
	// Leave makes the reader stop after that many items (-1: read all); only
	// obeyed in definite-length boxes, whose rest the parent must not see.
	Leave int
	// Peek and ask for the end between items.
	Probe bool
}

// Item is one of the two.
type Item struct {
	P *Prim `json:",omitempty"`
	B *Box  `json:",omitempty"`
}

// BoxCase is a box and how its containers are spelled.
type BoxCase struct {
	Root  *Box
	Forms []byte
	Tail  []byte
}

func genBox(t *rapid.T, depth int, budget *int) *Box {
	b := &Box{Leave: -1}
	switch rapid.IntRange(0, 3).Draw(t, "tagClass") {
	case 0:
		b.Tag = ber.App(rapid.IntRange(0, 30).Draw(t, "app"))
	case 1:
		b.Tag = rapid.SampledFrom([]byte{ber.Seq, ber.Set}).Draw(t, "uni")
	default:
		b.Tag = ber.Ctx(rapid.IntRange(0, 30).Draw(t, "ctx"))
	}
	n := rapid.IntRange(0, 5).Draw(t, "items")
	for i := 0; i < n && *budget > 0; i++ {
		*budget--
		if depth > 0 && rapid.IntRange(0, 2).Draw(t, "isBox") > 0 {
			b.Items = append(b.Items, Item{B: genBox(t, depth-1, budget)})
		} else {
			p := genPrim(t, false)
			b.Items = append(b.Items, Item{P: &p})
		}
	}
	if rapid.IntRange(0, 4).Draw(t, "leaves") == 0 {
		b.Leave = rapid.IntRange(0, len(b.Items)).Draw(t, "leave")
	}
	b.Probe = rapid.Bool().Draw(t, "probe")
	return b
}

func genBoxCase(t *rapid.T) BoxCase {
	budget := rapid.IntRange(0, 25).Draw(t, "budget")
	c := BoxCase{Root: genBox(t, rapid.IntRange(0, 8).Draw(t, "depth"), &budget)}
	if rapid.IntRange(0, 60).Draw(t, "chain") == 0 {
		// many containers around it, each with a little before and after
		for n := rapid.IntRange(9, 300).Draw(t, "levels"); n > 0; n-- {
			few := 0
			b := genBox(t, 0, &few)
			b.Leave = -1
			side := func(what string) {
				if rapid.IntRange(0, 3).Draw(t, what) == 0 {
					p := Prim{K: "int", I: int64(rapid.IntRange(-200, 200).Draw(t, "aside"))}
					b.Items = append(b.Items, Item{P: &p})
				}
			}
			side("before")
			b.Items = append(b.Items, Item{B: c.Root})
			side("after")
			c.Root = b
		}
	}
	if rapid.IntRange(0, 60).Draw(t, "far") == 0 {
		// something large somewhere, so that what follows is far from the start
		p := Prim{K: rapid.SampledFrom([]string{"str", "bits"}).Draw(t, "bigKind"), S: Blob{Pat: rapid.SliceOfN(rapid.ByteRange(1, 255), 1, 9).Draw(t, "pat"),
			N: rapid.OneOf(rapid.SampledFrom(lenEdgesBig), rapid.IntRange(700, 140000)).Draw(t, "bigLen")}}
		big := Item{P: &p}
		b := c.Root
		for rapid.IntRange(0, 3).Draw(t, "inner") > 0 {
			var in *Box
			for _, it := range b.Items {
				if it.B != nil {
					in = it.B
				}
			}
			if in == nil {
				break
			}
			b = in
		}
		b.Leave = -1
		k := rapid.IntRange(0, len(b.Items)).Draw(t, "bigAt")
		b.Items = append(b.Items[:k:k], append([]Item{big}, b.Items[k:]...)...)
	}
	c.Forms = rapid.SliceOfN(rapid.ByteRange(0, 5), 0, 30).Draw(t, "forms")
	c.Tail = rapid.SliceOfN(byteGen, 0, 5).Draw(t, "tail")
	return c
}

func (b *Box) node() *ber.Node {
	n := ber.C(b.Tag)
	for _, it := range b.Items {
		if it.P != nil {
			n.Kids = append(n.Kids, it.P.node())
		} else {
			n.Kids = append(n.Kids, it.B.node())
		}
	}
	return n
}

func (b *Box) write(w *asn1.ASNWriter) error {
	if e := w.StartSequence(b.Tag); e != nil {
		return fmt.Errorf("StartSequence: %s", emsg(e))
	}
	for _, it := range b.Items {
		if it.P != nil {
			if e := it.P.write(w); e != nil {
				return fmt.Errorf("write: %s", emsg(e))
			}
		} else if err := it.B.write(w); err != nil {
			return err
		}
	}
	if e := w.EndSequence(); e != nil {
		return fmt.Errorf("EndSequence: %s", emsg(e))
	}
	return nil
}

func (b *Box) depth() int {
	d := 0
	for _, it := range b.Items {
		if it.B != nil {
			if x := it.B.depth(); x > d {
				d = x
			}
		}
	}
	return d + 1
}

// at checks that the reader stands at absolute position pos.
func at(r *asn1.ASNReader, pos int, what string) error {
	if r.TopOffset() != pos {
		return fmt.Errorf("%s: reader reports absolute offset %d, want %d", what, r.TopOffset(), pos)
	}
	return nil
}

// read walks the box through the library; n is the same box as parsed
// independently, holding the absolute offsets.
func (b *Box) read(r *asn1.ASNReader, n *ber.Node) error {
	if err := at(r, n.Off, "before a container"); err != nil {
		return err
	}
	before := r.Len()
	if b.Probe {
		if tag, e := r.Peek(); e != nil || tag != b.Tag {
			return fmt.Errorf("Peek gave 0x%x %s, want 0x%x", tag, emsg(e), b.Tag)
		}
		if r.Len() != before {
			return fmt.Errorf("Peek consumed input")
		}
	}
	l, sub, e := r.ReadSequenceStart(b.Tag)
	if e != nil {
		return fmt.Errorf("ReadSequenceStart at %d: %s", n.Off, emsg(e))
	}
	if n.Indef {
		if l >= 0 {
			return fmt.Errorf("indefinite container at %d reported with length %d", n.Off, l)
		}
	} else {
		if l != n.End-n.Body || sub.Len() != l {
			return fmt.Errorf("container at %d has %d bytes, library reports %d and a reader of %d", n.Off, n.End-n.Body, l, sub.Len())
		}
		// the parent is already past the container
		if err := at(r, n.End, "parent after a definite container was opened"); err != nil {
			return err
		}
	}
	if err := at(sub, n.Body, "inside a container"); err != nil {
		return err
	}
	for i, it := range b.Items {
		if !n.Indef && b.Leave >= 0 && i >= b.Leave {
			return nil
		}
		if b.Probe {
			end, e := sub.CheckSequenceEnd()
			if e != nil || end {
				return fmt.Errorf("CheckSequenceEnd before item %d of the container at %d: %v %s", i, n.Off, end, emsg(e))
			}
			if e := sub.ReadSequenceEnd(); e == nil {
				return fmt.Errorf("ReadSequenceEnd succeeded before item %d of the container at %d", i, n.Off)
			}
			if err := at(sub, n.Kids[i].Off, "after probing for an end"); err != nil {
				return err
			}
		}
		k := n.Kids[i]
		if it.P != nil {
			if err := it.P.read(sub); err != nil {
				return fmt.Errorf("item %d of the container at %d: %w", i, n.Off, err)
			}
		} else if err := it.B.read(sub, k); err != nil {
			return err
		}
		if err := at(sub, k.End, "after an item"); err != nil {
			return err
		}
	}
	if b.Probe {
		end, e := sub.CheckSequenceEnd()
		if e != nil || !end {
			return fmt.Errorf("CheckSequenceEnd at the end of the container at %d: %v %s", n.Off, end, emsg(e))
		}
	} else if e := sub.ReadSequenceEnd(); e != nil {
		return fmt.Errorf("ReadSequenceEnd of the container at %d: %s", n.Off, emsg(e))
	}
	if err := at(r, n.End, "after a container"); err != nil {
		return err
	}
	return nil
}

func boxes(c BoxCase, own bool, o *engine.Obs) error {
	var enc []byte
	if own {
		w := asn1.NewASNWriter()
		if err := c.Root.write(w); err != nil {
			return err
		}
		enc = drain(w)
	} else {
		enc = c.Root.node().Append(nil, &ber.Forms{Choices: c.Forms, Cycle: true, PrimLong: true})
	}
	n, rest, err := ber.Parse(enc, ber.Rules{MinimalLength: own})
	if err != nil || len(rest) != 0 {
		return fmt.Errorf("encoding %s not well formed: %v, %d stray bytes", hexs(enc), err, len(rest))
	}
	if d := c.Root.depth(); d > 1 || len(c.Root.Items) > 0 {
		o.Label("depth %d", d)
	} else {
		o.Trivial()
	}
	data := append(append([]byte{}, enc...), c.Tail...)
	r := asn1.NewASNReader(data)
	if err := c.Root.read(r, n); err != nil {
		return fmt.Errorf("%w in %s", err, hexs(enc))
	}
	if r.Len() != len(c.Tail) {
		return fmt.Errorf("%d bytes left after the outermost container, want %d", r.Len(), len(c.Tail))
	}
	return nil
}

// openEnded: a container cut short is never taken for a complete one.
type CutBox struct {
	C   BoxCase
	At  int
	How string // cut, tag (another one is opened), mark (an end marker is spoilt)
}

func genCutBox(t *rapid.T) CutBox {
	c := CutBox{C: genBoxCase(t), At: rapid.IntRange(0, 1<<16).Draw(t, "at"), How: rapid.SampledFrom([]string{"cut", "tag", "mark"}).Draw(t, "how")}
	var clean func(b *Box)
	clean = func(b *Box) {
		b.Leave, b.Probe = -1, false
		for _, it := range b.Items {
			if it.B != nil {
				clean(it.B)
			}
		}
	}
	clean(c.C.Root)
	return c
}

func openEnded(c CutBox, o *engine.Obs) error {
	// indefinite lengths everywhere: see the known finding on definite ones
	forms := &ber.Forms{Choices: []byte{1}, Cycle: true}
	tree := c.C.Root.node()
	enc := tree.Append(nil, forms)
	n, _, err := ber.Parse(enc, ber.Rules{})
	if err != nil {
		return err
	}
	o.Label("%s", c.How)
	switch c.How {
	case "tag":
		enc = tree.Append(nil, &ber.Forms{Choices: c.C.Forms, Cycle: true, PrimLong: true})
		if n, _, err = ber.Parse(enc, ber.Rules{}); err != nil {
			return err
		}
		var boxes []*ber.Node
		n.Walk(func(n, _ *ber.Node, _ int) {
			if n.Constructed() {
				boxes = append(boxes, n)
			}
		})
		enc[boxes[c.At%len(boxes)].Off] ^= []byte{0x20, 1, 2, 4, 8, 0x10, 0x40, 0x80, 0xe0}[c.At/len(boxes)%9]
		if err := c.C.Root.read(asn1.NewASNReader(enc), n); err == nil {
			return fmt.Errorf("a container that starts with another tag was opened in %s", hexs(enc))
		}
		return nil
	case "mark":
		var boxes []*ber.Node
		tree.Walk(func(n, _ *ber.Node, _ int) {
			if n.Constructed() {
				boxes = append(boxes, n)
			}
		})
		boxes[c.At%len(boxes)].EndMark = []byte{0, []byte{1, 2, 0x80, 0xff}[c.At/len(boxes)%4]}
		spoilt := tree.Append(nil, &ber.Forms{Choices: []byte{1}, Cycle: true})
		spoilt = append(spoilt, c.C.Tail...)
		if err := c.C.Root.read(asn1.NewASNReader(spoilt), n); err == nil {
			return fmt.Errorf("a spoilt end marker was taken for one in %s", hexs(spoilt))
		}
		return nil
	}
	cut := c.At % len(enc)
	if err := c.C.Root.read(asn1.NewASNReader(enc[:cut]), n); err == nil {
		return fmt.Errorf("the first %d of %d bytes of %s were read as a complete container", cut, len(enc), hexs(enc))
	}
	return nil
}

// Raw data of indefinite length: everything up to two zero octets.
type RawBox struct {
	Data  []byte
	Via   string // raw, str, bits
	Inner bool   // in a container
	Form  byte
	Tail  []byte
	Open  int // -1: not ended; else how
	Times int `json:",omitempty"` // so many octets, the data over and over
}

func genRaw(t *rapid.T) RawBox {
	c := RawBox{Data: rapid.SliceOfN(byteGen, 0, 20).Draw(t, "data"), Via: rapid.SampledFrom([]string{"raw", "str", "bits"}).Draw(t, "via"),
		Inner: rapid.Bool().Draw(t, "inner"), Form: byte(rapid.IntRange(0, 3).Draw(t, "form")), Tail: rapid.SliceOfN(byteGen, 0, 5).Draw(t, "tail")}
	if rapid.IntRange(0, 3).Draw(t, "open") == 0 {
		c.Open = -1
		c.Tail = nil
	}
	if rapid.IntRange(0, 60).Draw(t, "long") == 33 && len(c.Data) > 0 {
		c.Times = rapid.SampledFrom([]int{127, 128, 255, 256, 1024, 4096, 32768, 65535, 65536, 70000, 300000}).Draw(t, "length") + rapid.IntRange(-1, 1).Draw(t, "more")
	}
	// no two zero octets in a row, none at the end
	for i := range c.Data {
		if c.Data[i] == 0 && (i+1 == len(c.Data) || i > 0 && c.Data[i-1] == 0) {
			c.Data[i] = 0x41
		}
	}
	return c
}

func raw(c RawBox, o *engine.Obs) error {
	o.Label("%s", c.Via)
	if len(c.Data) == 0 {
		o.Trivial()
	}
	if c.Times > 0 {
		o.Label("long")
		c.Data = Blob{Pat: c.Data, N: c.Times}.Bytes()
		if last := &c.Data[len(c.Data)-1]; *last == 0 {
			*last = 0x41
		}
	}
	tag := map[string]byte{"raw": ber.Octet, "str": ber.UTF8, "bits": ber.BitStr}[c.Via]
	enc := append([]byte{tag, 0x80}, c.Data...)
	if c.Open == 0 {
		enc = append(enc, 0, 0)
	}
	whole := append(append([]byte{}, enc...), c.Tail...)
	if c.Inner {
		whole = append(append([]byte{0x30}, ber.AppendLen(nil, len(enc), 0)...), enc...)
		if c.Form%2 == 1 {
			whole = append(append([]byte{0x30, 0x80}, enc...), 0, 0)
			if c.Open != 0 {
				whole = whole[:len(whole)-2]
			}
		}
		whole = append(whole, c.Tail...)
	}
	top := asn1.NewASNReader(whole)
	r := top
	if c.Inner {
		_, in, e := top.ReadSequenceStart(0x30)
		if e != nil {
			return fmt.Errorf("opening %s: %s", hexs(whole), emsg(e))
		}
		r = in
	}
	var got []byte
	var e errors.Error
	switch c.Via {
	case "raw":
		for i := 0; i < 2; i++ {
			if _, e := r.ReadByte(); e != nil {
				return fmt.Errorf("reading %s: %s", hexs(whole), emsg(e))
			}
		}
		got, e = r.ReadIndifiniteLengthData()
	case "str":
		var s string
		s, e = r.ReadString()
		got = []byte(s)
	case "bits":
		got, e = r.ReadBitString()
	}
	if c.Open != 0 {
		o.Label("unended")
		if e == nil {
			return fmt.Errorf("%s without its end in %s is read as %s", c.Via, hexs(whole), hexs(got))
		}
		return nil
	}
	if e != nil {
		return fmt.Errorf("%s in %s: %s", c.Via, hexs(whole), emsg(e))
	}
	if d := diffBytes(got, c.Data); d != "" {
		return fmt.Errorf("%s in %s: %s", c.Via, hexs(whole), d)
	}
	if c.Inner {
		if e := r.ReadSequenceEnd(); e != nil {
			return fmt.Errorf("end of the container in %s: %s", hexs(whole), emsg(e))
		}
	}
	if top.Len() != len(c.Tail) {
		return fmt.Errorf("%d bytes left of %s, %d follow", top.Len(), hexs(whole), len(c.Tail))
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID:    "C05",
		Title: "Nested containers isolate their content and report absolute offsets",
		Rule:  "a case counts if its outermost container is not empty and it differs from every earlier one",
		Subs: []engine.Sub{
			engine.NewSub("own", 4000, 60000, genBoxCase, func(c BoxCase, o *engine.Obs) error { return boxes(c, true, o) }),
			engine.NewSub("forms", 10000, 200000, genBoxCase, func(c BoxCase, o *engine.Obs) error { return boxes(c, false, o) }),
			engine.NewSub("raw", 6000, 60000, genRaw, raw),
			engine.NewSub("spoilt", 9000, 90000, genCutBox, openEnded),
		},
	})
}
