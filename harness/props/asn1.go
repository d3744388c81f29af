package props

import (
	"bytes"
	"fmt"
	"math"
	"math/big"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"
	"pgregory.net/rapid"
	"vpharness/ber"
	"vpharness/engine"
)

// Prim is one primitive value together with the operation that writes it.
type Prim struct {
	K string  // int, int64, bool, str, bits, oid, real
	I int64   `json:",omitempty"`
	B bool    `json:",omitempty"`
	S Blob    `json:",omitempty"`
	R uint64  `json:",omitempty"`
	O []int32 `json:",omitempty"`
}

var primKinds = []string{"int", "int64", "bool", "str", "bits", "oid", "real"}

func genPrim(t *rapid.T, big bool) Prim {
	p := Prim{K: rapid.SampledFrom(primKinds).Draw(t, "kind")}
	switch p.K {
	case "int":
		p.I = int64(genI32(t))
	case "int64":
		p.I = genI64(t)
	case "bool":
		p.B = rapid.Bool().Draw(t, "b")
	case "str", "bits":
		p.S = genBlob(t, big)
		if rapid.IntRange(0, 3).Draw(t, "asText") == 0 {
			p.S = textBlob(string(genText(t)))
		}
	case "oid":
		p.O = genOID(t, 0)
	case "real":
		p.R = genReal(t)
	}
	return p
}

func textBlob(s string) Blob {
	if s == "" {
		return Blob{}
	}
	return Blob{Pat: []byte(s), N: len(s)}
}

// texts that start and end in every odd way
func enumTexts(yield func([]Prim) bool) {
	for _, a := range oddTexts {
		var ps []Prim
		for _, b := range oddTexts {
			for _, k := range []string{"str", "bits"} {
				ps = append(ps, Prim{K: k, S: textBlob(a + b)}, Prim{K: k, S: textBlob(a + "x" + b)})
			}
		}
		if !yield(ps) {
			return
		}
	}
}

func (p Prim) label(o *engine.Obs) {
	switch p.K {
	case "int", "int64":
		o.Label("%s of %d octets", p.K, len(ber.IntBytes(p.I)))
	case "str", "bits":
		n := p.S.N
		switch {
		case n < 128:
			o.Label("%s length <128", p.K)
		case n < 256:
			o.Label("%s length 1 octet", p.K)
		case n < 65536:
			o.Label("%s length 2 octets", p.K)
		case n < 1<<24:
			o.Label("%s length 3 octets", p.K)
		default:
			o.Label("%s length 4 octets", p.K)
		}
	case "real":
		f := math.Float64frombits(p.R)
		switch {
		case f == 0:
			o.Label("real zero")
		case math.IsInf(f, 0) || math.IsNaN(f):
			o.Label("real special")
		case subnormal(f):
			o.Label("real subnormal")
		default:
			_, e := math.Frexp(f)
			o.Label("real exponent of %d octets", len(ber.IntBytes(int64(e-1))))
		}
	default:
		o.Label(p.K)
	}
}

func (p Prim) write(w *asn1.ASNWriter) errors.Error {
	switch p.K {
	case "int":
		return w.WriteInt(int(p.I))
	case "int64":
		return w.WriteInt64(p.I)
	case "bool":
		return w.WriteBoolean(p.B)
	case "str":
		return w.WriteString(string(p.S.Bytes()))
	case "bits":
		b := p.S.Bytes()
		defer scribble(b)
		return w.WriteBuffer(b, asn1.EMBER_BITSTRING)
	case "oid":
		oid := append(asn1.RelativeOID{}, p.O...)
		e := w.WriteRelativeOID(oid)
		for i := range oid {
			oid[i] = 1
		}
		return e
	case "real":
		return w.WriteReal(math.Float64frombits(p.R))
	}
	panic("kind")
}

// read reads the value back through the library and compares it.
func (p Prim) read(r *asn1.ASNReader) error {
	fail := func(e errors.Error) error { return fmt.Errorf("reading %s failed: %s", p.short(), emsg(e)) }
	switch p.K {
	case "int":
		v, e := r.ReadInt()
		if e != nil {
			return fail(e)
		}
		if int64(v) != p.I {
			return fmt.Errorf("read %d, want %s", v, p.short())
		}
	case "int64":
		v, e := r.ReadInt64()
		if e != nil {
			return fail(e)
		}
		if v != p.I {
			return fmt.Errorf("read %d, want %s", v, p.short())
		}
	case "bool":
		v, e := r.ReadBoolean()
		if e != nil {
			return fail(e)
		}
		if v != p.B {
			return fmt.Errorf("read %v, want %s", v, p.short())
		}
	case "str":
		v, e := r.ReadString()
		if e != nil {
			return fail(e)
		}
		if d := diffBytes([]byte(v), p.S.Bytes()); d != "" {
			return fmt.Errorf("string differs: %s", d)
		}
	case "bits":
		v, e := r.ReadBitString()
		if e != nil {
			return fail(e)
		}
		if d := diffBytes(v, p.S.Bytes()); d != "" {
			return fmt.Errorf("buffer differs: %s", d)
		}
	case "oid":
		v, e := r.ReadOID(asn1.EMBER_RELATIVE_OID)
		if e != nil {
			return fail(e)
		}
		if !sameOID(v, p.O) {
			return fmt.Errorf("read %v, want %s", v, p.short())
		}
	case "real":
		v, e := r.ReadReal()
		if e != nil {
			return fail(e)
		}
		if !sameReal(v, math.Float64frombits(p.R)) {
			return fmt.Errorf("read %x, want %s", v, p.short())
		}
	}
	return nil
}

// tryRead reads with the kind's reader and returns only the error.
func (p Prim) tryRead(r *asn1.ASNReader) (any, errors.Error) {
	switch p.K {
	case "int":
		return wrap(r.ReadInt())
	case "int64":
		return wrap(r.ReadInt64())
	case "bool":
		return wrap(r.ReadBoolean())
	case "str":
		return wrap(r.ReadString())
	case "bits":
		return wrap(r.ReadBitString())
	case "oid":
		return wrap(r.ReadOID(asn1.EMBER_RELATIVE_OID))
	case "real":
		return wrap(r.ReadReal())
	}
	panic("kind")
}

func wrap[T any](v T, e errors.Error) (any, errors.Error) { return v, e }

func (p Prim) short() string {
	switch p.K {
	case "int", "int64":
		return fmt.Sprintf("%s %d", p.K, p.I)
	case "bool":
		return fmt.Sprintf("bool %v", p.B)
	case "oid":
		return fmt.Sprintf("oid %v", p.O)
	case "real":
		return fmt.Sprintf("real %x (%g)", math.Float64frombits(p.R), math.Float64frombits(p.R))
	}
	return fmt.Sprintf("%s of %d bytes", p.K, p.S.N)
}

// node is the value in the independent encoding.
func (p Prim) node() *ber.Node {
	switch p.K {
	case "int", "int64":
		return ber.P(ber.Int, ber.IntBytes(p.I))
	case "bool":
		if p.B {
			return ber.P(ber.Bool, []byte{0xff})
		}
		return ber.P(ber.Bool, []byte{0})
	case "str":
		return ber.P(ber.UTF8, p.S.Bytes())
	case "bits":
		return ber.P(ber.BitStr, p.S.Bytes())
	case "oid":
		return ber.P(ber.RelOID, ber.OIDBytes(p.O))
	case "real":
		return ber.P(ber.Real, ber.RealBytes(math.Float64frombits(p.R)))
	}
	panic("kind")
}

// ---- C01 round trip ----

// pieces picks how the writer of ps is read: at once, or in pieces of some size.
func pieces(ps []Prim) int {
	if n := len(ps); n > 1 && n%2 == 0 {
		return n
	}
	return 0
}

func roundTrip(ps []Prim, o *engine.Obs) error {
	w := asn1.NewASNWriter()
	var ends []int
	for _, p := range ps {
		p.label(o)
		if e := p.write(w); e != nil {
			return fmt.Errorf("writing %s failed: %s", p.short(), emsg(e))
		}
		ends = append(ends, w.Len())
	}
	if len(ps) == 0 {
		o.Trivial()
	}
	var data []byte
	if e, piece := pieces(ps), 0; e > 0 {
		// taken out in pieces
		for w.Len() > 0 {
			p := make([]byte, min(e+piece, w.Len()))
			n, err := w.Read(p)
			if err != nil || n != len(p) {
				return fmt.Errorf("reading %d of %d bytes from the writer: %d, %s", len(p), w.Len()+n, n, emsg(err))
			}
			data, piece = append(data, p...), piece+1
		}
		if n := ends[len(ends)-1]; len(data) != n {
			return fmt.Errorf("%d bytes were read from a writer of %d", len(data), n)
		}
	} else {
		data = drain(w)
	}
	if w.Len() != 0 {
		return fmt.Errorf("%d bytes left in the writer after reading all of it", w.Len())
	}
	r := asn1.NewASNReader(data)
	for i, p := range ps {
		if err := p.read(r); err != nil {
			return fmt.Errorf("value %d of %d: %w", i, len(ps), err)
		}
		if r.Offset() != ends[i] || r.Len() != len(data)-ends[i] {
			return fmt.Errorf("value %d (%s): reader at %d with %d left, want %d with %d", i, p.short(), r.Offset(), r.Len(), ends[i], len(data)-ends[i])
		}
	}
	// values read don't depend on what becomes of the bytes
	r, overwrite := borrowed(data)
	vs := make([]any, len(ps))
	for i, p := range ps {
		if vs[i], _ = p.tryRead(r); p.K != "bits" && p.K != "str" && p.K != "oid" {
			vs[i] = nil
		}
	}
	overwrite()
	for i, p := range ps {
		ok := true
		switch v := vs[i].(type) {
		case string:
			ok = v == string(p.S.Bytes())
		case []byte:
			ok = bytes.Equal(v, p.S.Bytes())
		case asn1.RelativeOID:
			ok = sameOID(v, p.O)
		}
		if !ok {
			return fmt.Errorf("value %d (%s) read changes to %v with the bytes it was read from", i, p.short(), vs[i])
		}
	}
	return nil
}

func enumInts(yield func([]Prim) bool) {
	for k := 0; k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			for _, s := range []int64{1, -1} {
				v := s * (int64(1)<<uint(k) + d)
				ps := []Prim{{K: "int64", I: v}}
				if v == int64(int32(v)) {
					ps = append(ps, Prim{K: "int", I: v})
				}
				if !yield(ps) {
					return
				}
			}
		}
	}
}

func enumLens(lens []int) func(func([]Prim) bool) {
	return func(yield func([]Prim) bool) {
		for _, n := range lens {
			for _, k := range []string{"str", "bits"} {
				// an integer behind the blob shows where reading stopped
				if !yield([]Prim{{K: k, S: Blob{Pat: []byte{0x41, 0, 0, 0xff}, N: n}}, {K: "int", I: 77}}) {
					return
				}
			}
		}
	}
}

// every exponent, few mantissas
func enumReals(yield func([]Prim) bool) {
	for e := 0; e < 2048; e++ {
		var ps []Prim
		for _, m := range []uint64{0, 1, 1 << 51, 1<<52 - 1, 0x8000, 0xff << 44, 0x5555555555555} {
			ps = append(ps, Prim{K: "real", R: uint64(e)<<52 | m}, Prim{K: "real", R: 1<<63 | uint64(e)<<52 | m})
		}
		if !yield(ps) {
			return
		}
	}
}

func enumOIDs(yield func([]Prim) bool) {
	for k := 0; k < 31; k++ {
		for d := int64(-1); d <= 1; d++ {
			v := int64(1)<<uint(k) + d
			if v < 0 || v > math.MaxInt32 {
				continue
			}
			if !yield([]Prim{{K: "oid", O: []int32{int32(v)}}, {K: "oid", O: []int32{1, int32(v), 0, int32(v)}}}) {
				return
			}
		}
	}
	for v := int32(0); v < 600; v++ {
		if !yield([]Prim{{K: "oid", O: []int32{v}}}) {
			return
		}
	}
}

func genPrims(t *rapid.T) []Prim {
	n := rapid.IntRange(1, 12).Draw(t, "n")
	out := make([]Prim, n)
	for i := range out {
		out[i] = genPrim(t, n < 4)
	}
	return out
}

// ---- C02 wire form ----

// lavishReal tells what could be shorter in a binary real.
func lavishReal(b []byte) string {
	if len(b) < 2 || b[0]&0x83 == 0x83 {
		return ""
	}
	n := 1 + int(b[0]&3)
	if len(b) <= 1+n {
		return "no mantissa"
	}
	if e := b[1:]; n > 1 && (e[0] == 0 && e[1] < 0x80 || e[0] == 0xff && e[1] >= 0x80) {
		return "redundant sign octets in its exponent"
	}
	return ""
}

func wireForm(ps []Prim, o *engine.Obs) error {
	for _, p := range ps {
		p.label(o)
		f := math.Float64frombits(p.R)
		w := asn1.NewASNWriter()
		if e := p.write(w); e != nil {
			return fmt.Errorf("writing %s failed: %s", p.short(), emsg(e))
		}
		data := drain(w)
		n, rest, err := ber.Parse(data, ber.Rules{MinimalLength: true})
		if err != nil {
			return fmt.Errorf("%s encoded as %s is not well formed: %v", p.short(), hexs(data), err)
		}
		if len(rest) != 0 {
			return fmt.Errorf("%s encoded as %s has %d stray bytes", p.short(), hexs(data), len(rest))
		}
		want := p.node()
		if n.Tag != want.Tag {
			return fmt.Errorf("%s has tag 0x%x, want 0x%x", p.short(), n.Tag, want.Tag)
		}
		switch p.K {
		case "bool":
			if len(n.Prim) != 1 || (n.Prim[0] != 0) != p.B {
				return fmt.Errorf("%s encoded as %s", p.short(), hexs(data))
			}
		case "real":
			v, err := ber.ParseReal(n.Prim)
			if err != nil {
				return fmt.Errorf("%s encoded as %s: %v", p.short(), hexs(data), err)
			}
			if !sameReal(v, f) {
				return fmt.Errorf("%s encoded as %s, which means %x", p.short(), hexs(data), v)
			}
			if why := lavishReal(n.Prim); why != "" {
				return fmt.Errorf("%s encoded as %s, which has %s", p.short(), hexs(data), why)
			}
		default:
			if d := diffBytes(n.Prim, want.Prim); d != "" {
				return fmt.Errorf("%s: content %s", p.short(), d)
			}
		}
	}
	return nil
}

// TagCase covers the writers that take a tag, and the tag helpers.
type TagCase struct {
	Op  string
	Tag byte
	I   int64
	S   Blob
}

func genTagCase(t *rapid.T) TagCase {
	c := TagCase{Op: rapid.SampledFrom([]string{"inttag", "int64tag", "buffer", "enum", "null", "seq"}).Draw(t, "op")}
	c.Tag = byte(rapid.IntRange(1, 30).Draw(t, "num"))
	if c.Op == "inttag" || c.Op == "enum" {
		c.I = int64(genI32(t))
	} else {
		c.I = genI64(t)
	}
	c.S = genBlob(t, true)
	return c
}

func tagForm(c TagCase, o *engine.Obs) error {
	o.Label(c.Op)
	w := asn1.NewASNWriter()
	var e errors.Error
	var want []byte
	switch c.Op {
	case "inttag":
		e = w.WriteIntTag(int(c.I), c.Tag)
		want = ber.P(c.Tag, ber.IntBytes(c.I)).Bytes()
	case "int64tag":
		e = w.WriteInt64Tag(c.I, c.Tag)
		want = ber.P(c.Tag, ber.IntBytes(c.I)).Bytes()
	case "enum":
		e = w.WriteEnum(int(c.I))
		want = ber.P(ber.Enum, ber.IntBytes(c.I)).Bytes()
	case "buffer":
		e = w.WriteBuffer(c.S.Bytes(), c.Tag)
		want = ber.P(c.Tag, c.S.Bytes()).Bytes()
	case "null":
		e = w.WriteNull()
		want = []byte{5, 0}
	case "seq":
		e = w.StartSequence(asn1.Application(c.Tag))
		if e == nil {
			e = w.StartSequence(asn1.Context(c.Tag))
		}
		if e == nil {
			e = w.WriteInt64Tag(c.I, asn1.Universal(c.Tag))
		}
		if e == nil {
			e = w.EndSequence()
		}
		if e == nil {
			e = w.EndSequence()
		}
		want = ber.C(ber.App(int(c.Tag)), ber.C(ber.Ctx(int(c.Tag)), ber.P(c.Tag, ber.IntBytes(c.I)))).Append(nil, &ber.Forms{Choices: []byte{1}, Cycle: true})
	}
	if e != nil {
		return fmt.Errorf("%s failed: %s", c.Op, emsg(e))
	}
	if d := diffBytes(drain(w), want); d != "" {
		return fmt.Errorf("%s: %s", c.Op, d)
	}
	return nil
}

// ---- C03 spellings ----

// Spell is a value in some legal BER spelling.
type Spell struct {
	P       Prim
	LenForm byte // 0 short, 2..5 long form of at least 1..4 octets
	Pad     int  // extra leading octets (integers, real exponents)
	PadMant int
	Widen   int    `json:",omitempty"` // zero bits after the mantissa, up to 64 in all
	True    byte   // spelling of true
	Tail    []byte // bytes that follow
}

func genSpell(t *rapid.T) Spell {
	s := Spell{P: genPrim(t, true)}
	s.LenForm = rapid.SampledFrom([]byte{0, 2, 3, 4, 5}).Draw(t, "lenForm")
	s.Pad = rapid.IntRange(0, 7).Draw(t, "pad")
	s.PadMant = rapid.IntRange(0, 3).Draw(t, "padMant")
	if rapid.IntRange(0, 2).Draw(t, "widen") == 0 {
		s.Widen = rapid.IntRange(1, 64).Draw(t, "by")
	}
	s.True = rapid.ByteRange(1, 255).Draw(t, "true")
	s.Tail = rapid.SliceOfN(byteGen, 0, 6).Draw(t, "tail")
	return s
}

func (s Spell) node(o *engine.Obs) *ber.Node {
	n := s.P.node()
	switch s.P.K {
	case "int", "int64":
		max := 8
		if s.P.K == "int" {
			max = 4
		}
		for i := 0; i < s.Pad && len(n.Prim) < max; i++ {
			c := byte(0)
			if s.P.I < 0 {
				c = 0xff
			}
			n.Prim = append([]byte{c}, n.Prim...)
			o.Label("padded integer")
		}
	case "bool":
		if s.P.B {
			n.Prim[0] = s.True
		}
	case "real":
		f := math.Float64frombits(s.P.R)
		if f != 0 && !math.IsInf(f, 0) && !math.IsNaN(f) && (s.Pad > 0 || s.PadMant > 0 || s.Widen > 0) {
			o.Label("padded real")
			fr, e := math.Frexp(math.Abs(f))
			m := uint64(math.Ldexp(fr, 53))
			// drop only some of the trailing zeros
			for k := 0; m&1 == 0 && k < 8*(s.Pad%7)+s.PadMant; k++ {
				m >>= 1
			}
			for k := 0; k < s.Widen && m>>63 == 0; k++ {
				m <<= 1
			}
			if m>>56 != 0 {
				o.Label("mantissa of eight octets")
			}
			pm := s.PadMant
			for pm > 0 && pm+(mbits(m)+7)/8 > 8 {
				pm--
			}
			n.Prim = ber.RealParts(math.Signbit(f), int64(e-1), m, s.Pad%3, pm)
		}
	}
	return n
}

func mbits(m uint64) int {
	n := 0
	for ; m > 0; m >>= 1 {
		n++
	}
	return n
}

func spelling(s Spell, o *engine.Obs) error {
	s.P.label(o)
	o.Label("length form %d", s.LenForm)
	enc := s.node(o).Append(nil, &ber.Forms{Choices: []byte{s.LenForm}, PrimLong: true})
	data := append(append([]byte{}, enc...), s.Tail...)
	r := asn1.NewASNReader(data)
	if b, e := r.Peek(); e != nil || b != enc[0] {
		return fmt.Errorf("Peek gave 0x%x, %s", b, emsg(e))
	}
	if err := s.P.read(r); err != nil {
		return fmt.Errorf("%w (from %s)", err, hexs(enc))
	}
	if r.Len() != len(s.Tail) {
		return fmt.Errorf("%s: %d bytes left after reading, want %d", s.P.short(), r.Len(), len(s.Tail))
	}
	return nil
}

// ---- C04 rejection ----

// Bad is an encoding made wrong in one way.
type Bad struct {
	P       Prim
	How     string
	At      int
	LenForm byte
	Tag     byte
}

var badHows = []string{"truncated", "wrongtag", "lenbeyond", "empty", "toolong", "lenoflen", "oidopen", "oidbig", "realshort", "indefinite"}

func genBad(t *rapid.T) Bad {
	b := Bad{P: genPrim(t, false), How: rapid.SampledFrom(badHows).Draw(t, "how")}
	switch b.How {
	case "oidopen", "oidbig":
		b.P = Prim{K: "oid", O: genOID(t, 0)}
	case "realshort":
		b.P = Prim{K: "real", R: genReal(t)}
	case "empty", "indefinite":
		b.P.K = rapid.SampledFrom([]string{"int", "int64", "bool"}).Draw(t, "kind2")
	case "toolong":
		b.P.K = rapid.SampledFrom([]string{"int", "int64", "bool"}).Draw(t, "kind2")
	}
	b.At = rapid.IntRange(0, 1<<20).Draw(t, "at")
	b.LenForm = rapid.SampledFrom([]byte{0, 2, 3, 4, 5}).Draw(t, "lenForm")
	b.Tag = rapid.Byte().Draw(t, "tag")
	return b
}

func rejected(c Bad, o *engine.Obs) error {
	o.Label("%s %s", c.How, c.P.K)
	n := c.P.node()
	spell := func(n *ber.Node) []byte {
		return n.Append(nil, &ber.Forms{Choices: []byte{c.LenForm}, PrimLong: true})
	}
	enc := spell(n)
	limit := uint64(1 << 20)
	switch c.How {
	case "truncated":
		enc = enc[:c.At%len(enc)]
	case "wrongtag":
		if c.Tag == n.Tag {
			c.Tag ^= 0x10
		}
		enc[0] = c.Tag
	case "lenbeyond":
		// a length far beyond the data
		claim := []int{1, 2, 100, 70000, 1 << 24, 1<<31 - 1, 1<<32 - 1}[c.At%7] + len(n.Prim)
		if claim > 1<<32-1 {
			claim = 1<<32 - 1
		}
		enc = append([]byte{n.Tag, 0x84, byte(claim >> 24), byte(claim >> 16), byte(claim >> 8), byte(claim)}, n.Prim...)
	case "empty":
		enc = []byte{n.Tag, 0, 1, 1, 0x7f, 0, 0}
	case "indefinite":
		enc = append(append([]byte{n.Tag, 0x80}, n.Prim...), 0, 0)
	case "toolong":
		k := map[string]int{"int": 5, "int64": 9, "bool": 2}[c.P.K]
		p := []byte{}
		for i := 0; i < k+c.At%5; i++ {
			p = append(p, byte(c.At>>uint(i%16))|1)
		}
		enc = spell(ber.P(n.Tag, p))
	case "lenoflen":
		k := 5 + c.At%123
		enc = append([]byte{n.Tag, 0x80 | byte(k)}, bytes.Repeat([]byte{0}, k-1)...)
		enc = append(enc, byte(len(n.Prim)))
		enc = append(enc, n.Prim...)
	case "oidopen":
		p := append([]byte{}, n.Prim...)
		p = append(p, 0x81+c.Tag%0x7e)
		enc = spell(ber.P(n.Tag, p))
	case "oidbig":
		// an arc of 33 bits or more
		p := append([]byte{}, n.Prim...)
		p = append(p, 0x90|c.Tag&0x6f)
		for i := 0; i < 3+c.At%3; i++ {
			p = append(p, 0x80|byte(c.At>>uint(i)))
		}
		p = append(p, byte(c.At)&0x7f)
		enc = spell(ber.P(n.Tag, p))
	case "realshort":
		el := 2 + c.At%2
		p := append([]byte{0x80 | byte(el-1)}, bytes.Repeat([]byte{c.Tag | 1}, 1+c.At/2%(el-1))...)
		enc = spell(ber.P(n.Tag, p))
	}
	var v any
	var e errors.Error
	alloc := engine.AllocDuring(func() { v, e = c.P.tryRead(asn1.NewASNReader(enc)) })
	if e == nil {
		return fmt.Errorf("%s encoding of %s (%s) was read as %v without an error", c.How, c.P.short(), hexs(enc), v)
	}
	if alloc > limit+64*uint64(len(enc)) {
		return fmt.Errorf("%s encoding of %d bytes made the reader allocate %d bytes", c.How, len(enc), alloc)
	}
	return nil
}

// arbitrary content for every primitive reader: any result but a panic or a
// hang, and no reading past the end of the announced content.
type Junk struct {
	K    string
	Body []byte
	Tail []byte
	Len  int // announced length; -1 means len(Body)
}

// genRealBody draws the content of a real from its parts, legal or not.
func genRealBody(t *rapid.T) []byte {
	pre := rapid.SampledFrom([]byte{0x80, 0x80, 0x81, 0x82, 0xc0, 0xc1, 0x00, 0x01, 0x40, 0x41, 0x42, 0x43, 0x90, 0xa0, 0xb0, 0xd1, 0x10, 0x20, 0x30}).Draw(t, "preamble")
	b := []byte{pre}
	if rapid.IntRange(0, 9).Draw(t, "alone") == 0 {
		return b
	}
	n := int(pre&3) + 1
	if rapid.IntRange(0, 9).Draw(t, "shortExp") == 0 {
		n -= rapid.IntRange(0, n).Draw(t, "missing")
	}
	var e int64
	switch rapid.IntRange(0, 3).Draw(t, "expClass") {
	case 0:
		e = rapid.SampledFrom([]int64{-1080, -1076, -1075, -1074, -1073, -1023, -1022, -1021, 1021, 1022, 1023, 1024, 1025, 2047, 2048, -2048, -2047}).Draw(t, "expEdge")
	case 1:
		e = genBits(t, 24)
	default:
		e = int64(rapid.IntRange(-100, 100).Draw(t, "exp"))
	}
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(e>>(8*uint(i))))
	}
	return append(b, rapid.SliceOfN(byteGen, 0, 10).Draw(t, "mantissa")...)
}

func genJunk(t *rapid.T) Junk {
	j := Junk{K: rapid.SampledFrom(primKinds).Draw(t, "kind"), Len: -1}
	switch {
	case j.K == "real" && rapid.IntRange(0, 3).Draw(t, "parts") > 0:
		j.Body = genRealBody(t)
	case j.K == "oid" && rapid.IntRange(0, 3).Draw(t, "parts") > 0:
		n := rapid.IntRange(1, 3).Draw(t, "arcs")
		for i := 0; i < n; i++ {
			j.Body = append(j.Body, ber.ArcBytes(uint64(genBits(t, 40))&(1<<40-1))...)
		}
		j.Body = j.Body[:len(j.Body)-rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "cut")]
	default:
		j.Body = rapid.SliceOfN(byteGen, 0, 14).Draw(t, "body")
	}
	j.Tail = rapid.SliceOfN(byteGen, 0, 6).Draw(t, "tail")
	if rapid.IntRange(0, 4).Draw(t, "indef") == 0 {
		j.Len = -2
	}
	return j
}

func junk(j Junk, o *engine.Obs) error {
	tag := (Prim{K: j.K}).node().Tag
	var enc []byte
	if j.Len == -2 {
		enc = append([]byte{tag, 0x80}, j.Body...)
	} else {
		enc = append([]byte{tag, byte(len(j.Body))}, j.Body...)
	}
	enc = append(enc, j.Tail...)
	r := asn1.NewASNReader(enc)
	v, e := (Prim{K: j.K}).tryRead(r)
	if e != nil {
		o.Label("%s rejected", j.K)
		return nil
	}
	o.Label("%s accepted", j.K)
	if j.Len == -2 {
		// content up to two zero octets
		rest := append(append([]byte{}, j.Body...), j.Tail...)
		end := bytes.Index(rest, []byte{0, 0})
		if end < 0 {
			return fmt.Errorf("%s of indefinite length read from %s, which has no end", j.K, hexs(enc))
		}
		j.Body, j.Tail = rest[:end], rest[end+2:]
	}
	if r.Len() != len(j.Tail) {
		return fmt.Errorf("reading %s from %s left %d bytes, want %d", j.K, hexs(enc), r.Len(), len(j.Tail))
	}
	// where the independent decoder knows the value, it must agree
	switch j.K {
	case "int", "int64":
		w, _, err := ber.ParseInt(j.Body)
		var got int64
		switch x := v.(type) {
		case int:
			got = int64(x)
		case int64:
			got = x
		}
		if err != nil || got != w {
			return fmt.Errorf("integer content %s read as %d, independent decoder says %d, %v", hexs(j.Body), got, w, err)
		}
	case "bool":
		if len(j.Body) != 1 || (j.Body[0] != 0) != v.(bool) {
			return fmt.Errorf("boolean content %s read as %v", hexs(j.Body), v)
		}
	case "real":
		if err := judgeReal(j.Body, v.(float64)); err != nil {
			return err
		}
	case "oid":
		w, err := ber.ParseOIDPadded(j.Body)
		if err != nil {
			return fmt.Errorf("oid content %s read as %v, independent decoder says %v", hexs(j.Body), v, err)
		}
		if !sameOID(w, v.(asn1.RelativeOID)) {
			return fmt.Errorf("oid content %s read as %v, independent decoder says %v", hexs(j.Body), v, w)
		}
	case "str":
		if v.(string) != string(j.Body) {
			return fmt.Errorf("string content %s read as %x", hexs(j.Body), v)
		}
	case "bits":
		if !bytes.Equal(v.([]byte), j.Body) {
			return fmt.Errorf("string content %s read as %x", hexs(j.Body), v)
		}
	}
	return nil
}

// judgeReal tells whether a real content may be read as v. Scale factors and
// exponents whose length is spelt out are left open: Ember+ has none.
func judgeReal(b []byte, v float64) error {
	wrong := func(what string) error {
		return fmt.Errorf("real content %s, which is %s, read as %g", hexs(b), what, v)
	}
	w, err := ber.ParseReal(b)
	if err == nil && !subnormal(w) && (len(b) <= 1 || !math.IsInf(w, 0)) {
		if !sameReal(w, v) {
			return wrong(fmt.Sprintf("%g", w))
		}
		return nil
	}
	if len(b) == 1 && b[0] == 0x43 && v == 0 {
		return nil // minus zero
	}
	if len(b) < 2 || b[0]&0x80 == 0 {
		return wrong("not binary")
	}
	if b[0]&0x30 != 0 {
		return wrong("not in base 2")
	}
	if b[0]&0x0c != 0 || b[0]&3 == 3 {
		return nil
	}
	el := int(b[0]&3) + 1
	if len(b) < 1+el+1 {
		return wrong("incomplete")
	}
	exp, _, _ := ber.ParseInt(b[1 : 1+el])
	m := b[1+el:]
	if len(bytes.Trim(m, "\x00")) == 0 {
		if v != 0 {
			return wrong("zero")
		}
		return nil
	}
	if exp > 1023 || exp < -1074 {
		return wrong("out of range")
	}
	// more digits than a float64 has: rounded either way
	i := new(big.Int).SetBytes(m)
	x := new(big.Float).SetInt(i)
	w, _ = x.SetMantExp(x, int(exp)-i.BitLen()+1).Float64()
	if b[0]&0x40 != 0 {
		w = -w
	}
	if v != w && v != math.Nextafter(w, 0) && v != math.Nextafter(w, 2*w) && !(math.IsInf(w, 0) && math.Abs(v) == math.MaxFloat64 && v*w > 0) {
		return wrong(fmt.Sprintf("about %g", w))
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID:    "C01",
		Title: "Primitive values survive a write/read round trip",
		Rule:  "a case counts if its sequence of values is non-empty and differs from every earlier one",
		Subs: []engine.Sub{
			engine.NewEnum("ints", enumInts, roundTrip),
			engine.NewEnum("lengths", enumLens(append(append([]int{}, lenEdges...), lenEdgesBig...)), roundTrip),
			engine.NewEnum("huge", enumLens([]int{1<<24 - 1, 1 << 24, 1<<24 + 1}), roundTrip),
			engine.NewEnum("reals", enumReals, roundTrip),
			engine.NewEnum("texts", enumTexts, roundTrip),
			engine.NewEnum("oids", enumOIDs, roundTrip),
			engine.NewSub("mixed", 6000, 150000, genPrims, roundTrip),
		},
	})
	register(&engine.Property{
		ID:    "C02",
		Title: "Encoded primitives are well-formed, minimal BER that an independent decoder reads as the same value",
		Rule:  "a case counts if it differs from every earlier one",
		Subs: []engine.Sub{
			engine.NewEnum("ints", enumInts, wireForm),
			engine.NewEnum("lengths", enumLens(append(append([]int{}, lenEdges...), lenEdgesBig...)), wireForm),
			engine.NewEnum("huge", enumLens([]int{1<<24 - 1, 1 << 24, 1<<24 + 1}), wireForm),
			engine.NewEnum("reals", enumReals, wireForm),
			engine.NewEnum("texts", enumTexts, wireForm),
			engine.NewEnum("oids", enumOIDs, wireForm),
			engine.NewSub("mixed", 6000, 150000, genPrims, wireForm),
			engine.NewSub("tags", 4000, 80000, genTagCase, tagForm),
		},
	})
	register(&engine.Property{
		ID:    "C03",
		Title: "Every legal BER spelling of a primitive decodes to the same value",
		Rule:  "a case counts if it differs from every earlier one",
		Subs: []engine.Sub{
			engine.NewSub("spelling", 20000, 400000, genSpell, spelling),
		},
	})
	register(&engine.Property{
		ID:    "C04",
		Title: "Truncated, mistyped or malformed primitives are reported as errors",
		Rule:  "a case counts if it differs from every earlier one",
		Subs: []engine.Sub{
			engine.NewSub("rejected", 25000, 400000, genBad, rejected),
			engine.NewSub("junk", 25000, 400000, genJunk, junk),
		},
	})
}
