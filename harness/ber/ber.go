// Package ber is a small BER codec written for the checks: it shares no code
// with the library under test.  The parser is strict about structure and
// accepts every legal length form; the writer can spell one value in many ways.
package ber

import (
	"errors"
	"fmt"
	"math"
	"math/big"
)

// Universal tags used by Ember+.
const (
	Bool   = 0x01
	Int    = 0x02
	BitStr = 0x03
	Octet  = 0x04
	Null   = 0x05
	Real   = 0x09
	Enum   = 0x0a
	UTF8   = 0x0c
	RelOID = 0x0d
	Seq    = 0x30
	Set    = 0x31
)

// Ctx and App build context and application tags of constructed encodings.
func Ctx(n int) byte { return 0xa0 | byte(n) }
func App(n int) byte { return 0x60 | byte(n) }

// Node is one TLV: primitive content or children.
type Node struct {
	Tag  byte
	Prim []byte
	Kids []*Node

	// set by Parse: where the node starts, where its content starts, where it ends
	Off, Body, End int
	Indef          bool

	// for spoiling: force a definite length, lie about it, add raw bytes at the end of the content
	Definite bool
	// force an indefinite length, and spell its end marker wrongly
	Indefinite bool
	EndMark    []byte
	LenDelta   int
	Raw        []byte
}

// Constructed tells by the tag whether the node has children.
func (n *Node) Constructed() bool { return n.Tag&0x20 != 0 }

// P and C make primitive and constructed nodes.
func P(tag byte, content []byte) *Node { return &Node{Tag: tag, Prim: content} }
func C(tag byte, kids ...*Node) *Node  { return &Node{Tag: tag, Kids: kids} }

// Forms chooses length spellings; every node consumes one byte.
// For constructed nodes: 0 definite minimal, 1 indefinite, 2..5 long form with
// that many minus one length octets.  For primitives 1 counts as 0.
type Forms struct {
	Choices []byte
	Cycle   bool
	i       int
	// PrimLong allows padded lengths on primitives too.
	PrimLong bool
}

func (f *Forms) next() byte {
	if f == nil || len(f.Choices) == 0 {
		return 0
	}
	if f.i >= len(f.Choices) {
		if !f.Cycle {
			return 0
		}
		f.i = 0
	}
	b := f.Choices[f.i]
	f.i++
	return b % 6
}

// AppendLen appends the length n in the given form.
func AppendLen(dst []byte, n int, form byte) []byte {
	need := 0
	for v := n; v > 0; v >>= 8 {
		need++
	}
	if need == 0 {
		need = 1
	}
	if form <= 1 {
		if n < 0x80 {
			return append(dst, byte(n))
		}
	} else if int(form)-1 > need {
		need = int(form) - 1
	}
	dst = append(dst, 0x80|byte(need))
	for i := need - 1; i >= 0; i-- {
		dst = append(dst, byte(n>>(8*i)))
	}
	return dst
}

// Append serialises n.
func (n *Node) Append(dst []byte, f *Forms) []byte {
	form := f.next()
	if !n.Constructed() {
		if f == nil || !f.PrimLong {
			form = 0
		}
		if n.Indefinite {
			return append(append(append(dst, n.Tag, 0x80), n.Prim...), 0, 0)
		}
		dst = append(dst, n.Tag)
		dst = AppendLen(dst, len(n.Prim)+len(n.Raw)+n.LenDelta, form)
		return append(append(dst, n.Prim...), n.Raw...)
	}
	if n.Definite && form == 1 {
		form = 0
	}
	if form == 1 || n.Indefinite {
		dst = append(dst, n.Tag, 0x80)
		for _, k := range n.Kids {
			dst = k.Append(dst, f)
		}
		dst = append(dst, n.Raw...)
		if n.EndMark != nil {
			return append(dst, n.EndMark...)
		}
		return append(dst, 0, 0)
	}
	var body []byte
	for _, k := range n.Kids {
		body = k.Append(body, f)
	}
	body = append(body, n.Raw...)
	dst = append(dst, n.Tag)
	dst = AppendLen(dst, len(body)+n.LenDelta, form)
	return append(dst, body...)
}

// Bytes serialises n with definite minimal lengths.
func (n *Node) Bytes() []byte { return n.Append(nil, nil) }

// Rules restrict what Parse accepts.
type Rules struct {
	MinimalLength bool // definite lengths must be in their shortest form
}

var errShort = errors.New("truncated")

// ParseLen reads a length; -1 means indefinite.
func ParseLen(b []byte, r Rules) (n int, rest []byte, err error) {
	if len(b) == 0 {
		return 0, nil, errShort
	}
	c := b[0]
	b = b[1:]
	if c < 0x80 {
		return int(c), b, nil
	}
	if c == 0x80 {
		return -1, b, nil
	}
	k := int(c & 0x7f)
	if k > 8 || len(b) < k {
		return 0, nil, errShort
	}
	v := new(big.Int).SetBytes(b[:k])
	if !v.IsInt64() || v.Int64() > math.MaxInt32 {
		return 0, nil, errors.New("length too big")
	}
	n = int(v.Int64())
	if r.MinimalLength && (n < 0x80 || b[0] == 0) {
		return 0, nil, fmt.Errorf("length %d not in shortest form", n)
	}
	return n, b[k:], nil
}

// Parse reads one TLV and returns what follows it.
func Parse(b []byte, r Rules) (*Node, []byte, error) {
	n, pos, err := parse(b, 0, len(b), r, 0)
	if err != nil {
		return nil, nil, err
	}
	return n, b[pos:], nil
}

func parse(b []byte, pos, end int, r Rules, depth int) (*Node, int, error) {
	if depth > 2000 {
		return nil, 0, errors.New("too deep")
	}
	if pos >= end {
		return nil, 0, errShort
	}
	nd := &Node{Tag: b[pos], Off: pos}
	if nd.Tag&0x1f == 0x1f {
		return nil, 0, errors.New("multi-octet tag")
	}
	if nd.Tag == 0 {
		return nil, 0, errors.New("unexpected end-of-contents")
	}
	n, rest, err := ParseLen(b[pos+1:end], r)
	if err != nil {
		return nil, 0, err
	}
	pos = end - len(rest)
	nd.Body = pos
	if n < 0 {
		if !nd.Constructed() {
			return nil, 0, fmt.Errorf("primitive 0x%x with indefinite length", nd.Tag)
		}
		nd.Indef = true
		for {
			if end-pos < 2 {
				return nil, 0, errShort
			}
			if b[pos] == 0 && b[pos+1] == 0 {
				nd.End = pos + 2
				return nd, nd.End, nil
			}
			var k *Node
			k, pos, err = parse(b, pos, end, r, depth+1)
			if err != nil {
				return nil, 0, err
			}
			nd.Kids = append(nd.Kids, k)
		}
	}
	if n > end-pos {
		return nil, 0, errShort
	}
	nd.End = pos + n
	if !nd.Constructed() {
		nd.Prim = b[pos:nd.End]
		return nd, nd.End, nil
	}
	for pos < nd.End {
		var k *Node
		k, pos, err = parse(b, pos, nd.End, r, depth+1)
		if err != nil {
			return nil, 0, err
		}
		nd.Kids = append(nd.Kids, k)
	}
	return nd, nd.End, nil
}

// IntBytes is the minimal two's complement content of v.
func IntBytes(v int64) []byte {
	n := 1
	for n < 8 && (v < -(int64(1)<<(8*n-1)) || v >= int64(1)<<(8*n-1)) {
		n++
	}
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(v >> (8 * (n - 1 - i)))
	}
	return out
}

// ParseInt decodes integer content and tells whether it was minimal.
func ParseInt(b []byte) (v int64, minimal bool, err error) {
	if len(b) == 0 || len(b) > 8 {
		return 0, false, fmt.Errorf("integer of %d octets", len(b))
	}
	minimal = true
	if len(b) > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xff && b[1] >= 0x80)) {
		minimal = false
	}
	v = int64(int8(b[0]))
	for _, c := range b[1:] {
		v = v<<8 | int64(c)
	}
	return v, minimal, nil
}

// OIDBytes is the minimal content of a relative OID.
func OIDBytes(ids []int32) []byte {
	var out []byte
	for _, id := range ids {
		v := uint32(id)
		shift := 28
		for shift > 0 && v>>shift == 0 {
			shift -= 7
		}
		for ; shift > 0; shift -= 7 {
			out = append(out, 0x80|byte(v>>shift&0x7f))
		}
		out = append(out, byte(v&0x7f))
	}
	return out
}

// ArcBytes is an OID component in base 128.
func ArcBytes(v uint64) []byte {
	out := []byte{byte(v & 0x7f)}
	for v >>= 7; v > 0; v >>= 7 {
		out = append([]byte{0x80 | byte(v&0x7f)}, out...)
	}
	return out
}

// ParseOID decodes relative OID content, insisting on minimal arcs.
func ParseOID(b []byte) ([]int32, error) { return parseOID(b, false) }

// ParseOIDPadded also takes arcs that are not in their shortest form.
func ParseOIDPadded(b []byte) ([]int32, error) { return parseOID(b, true) }

func parseOID(b []byte, padded bool) ([]int32, error) {
	out := []int32{}
	for len(b) > 0 {
		if b[0] == 0x80 && !padded {
			return nil, errors.New("arc not in shortest form")
		}
		v := uint64(0)
		for {
			if len(b) == 0 {
				return nil, errShort
			}
			c := b[0]
			b = b[1:]
			v = v<<7 | uint64(c&0x7f)
			if v > math.MaxInt32 {
				return nil, errors.New("arc above 2^31-1")
			}
			if c < 0x80 {
				break
			}
		}
		out = append(out, int32(v))
	}
	return out, nil
}

// RealBytes is the Ember+ content of a real: the mantissa is an odd integer
// read as the binary digits of 1.f, times two to the exponent.
func RealBytes(r float64) []byte {
	switch {
	case r == 0:
		return nil
	case math.IsInf(r, 1):
		return []byte{0x40}
	case math.IsInf(r, -1):
		return []byte{0x41}
	case math.IsNaN(r):
		return []byte{0x42}
	}
	frac, exp := math.Frexp(math.Abs(r)) // frac in [0.5,1)
	exp--
	m := uint64(math.Ldexp(frac, 53))
	for m&1 == 0 {
		m >>= 1
	}
	return RealParts(math.Signbit(r), int64(exp), m, 0, 0)
}

// RealParts spells sign, exponent and mantissa with padding zeros.
func RealParts(neg bool, exp int64, m uint64, padExp, padMant int) []byte {
	e := IntBytes(exp)
	for i := 0; i < padExp && len(e) < 3; i++ {
		c := byte(0)
		if exp < 0 {
			c = 0xff
		}
		e = append([]byte{c}, e...)
	}
	pre := byte(0x80) | byte(len(e)-1)
	if neg {
		pre |= 0x40
	}
	out := append([]byte{pre}, e...)
	for i := 0; i < padMant; i++ {
		out = append(out, 0)
	}
	mb := []byte{}
	for v := m; v > 0; v >>= 8 {
		mb = append([]byte{byte(v)}, mb...)
	}
	return append(out, mb...)
}

// ParseReal decodes Ember+ real content.
func ParseReal(b []byte) (float64, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(b) == 1 {
		switch b[0] {
		case 0x40:
			return math.Inf(1), nil
		case 0x41:
			return math.Inf(-1), nil
		case 0x42:
			return math.NaN(), nil
		}
		return 0, fmt.Errorf("special real 0x%x", b[0])
	}
	pre := b[0]
	if pre&0x80 == 0 || pre&0x30 != 0 || pre&0x0c != 0 {
		return 0, fmt.Errorf("real preamble 0x%x", pre)
	}
	el := int(pre&3) + 1
	if pre&3 == 3 {
		return 0, errors.New("real exponent length in its own octet")
	}
	if len(b) < 1+el+1 {
		return 0, errShort
	}
	exp, _, err := ParseInt(b[1 : 1+el])
	if err != nil {
		return 0, err
	}
	mb := b[1+el:]
	for len(mb) > 0 && mb[0] == 0 {
		mb = mb[1:]
	}
	if len(mb) == 0 || len(mb) > 8 {
		return 0, errors.New("real mantissa")
	}
	m := uint64(0)
	for _, c := range mb {
		m = m<<8 | uint64(c)
	}
	f := float64(m) // exact for <= 53 bits
	if uint64(f) != m {
		return 0, errors.New("real mantissa above 53 bits")
	}
	fr, _ := math.Frexp(f) // [0.5,1)
	if exp > 5000 || exp < -5000 {
		return 0, errors.New("real exponent")
	}
	v := math.Ldexp(fr, int(exp)+1)
	if pre&0x40 != 0 {
		v = -v
	}
	return v, nil
}

// Clone copies deeply.
func (n *Node) Clone() *Node {
	c := *n
	c.Prim = append([]byte{}, n.Prim...)
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return &c
}

// Walk visits n and everything below it with its parent.
func (n *Node) Walk(f func(n, parent *Node, idx int)) { n.walk(nil, 0, f) }
func (n *Node) walk(parent *Node, idx int, f func(n, parent *Node, idx int)) {
	f(n, parent, idx)
	for i, k := range n.Kids {
		k.walk(n, i, f)
	}
}
