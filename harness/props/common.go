// Package props states the properties of emberlib as executable checks.
package props

import (
	"bytes"
	"fmt"
	"math"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"
	"pgregory.net/rapid"
	"vpharness/engine"
)

var registry []*engine.Property

func register(p *engine.Property) { registry = append(registry, p) }

// All lists the properties.
func All() []*engine.Property {
	for _, p := range registry {
		p.Fuzz = fuzzOf(p.ID)
	}
	return registry
}

func emsg(e errors.Error) string {
	if e == nil {
		return "<nil>"
	}
	if e.Message == nil {
		return "<error without message>"
	}
	return e.Message.Error()
}

// Blob is a byte string given by a repeated pattern, so that long ones stay small cases.
type Blob struct {
	Pat []byte
	N   int
}

func (b Blob) Bytes() []byte {
	out := make([]byte, b.N)
	if len(b.Pat) == 0 {
		return out
	}
	for i := 0; i < b.N; i += copy(out[i:], b.Pat) {
	}
	return out
}

// interesting lengths: every length-form boundary of BER up to 24 bits
var lenEdges = []int{0, 1, 2, 31, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 1023, 1024, 4096}
var lenEdgesBig = []int{65533, 65534, 65535, 65536, 65537, 70000}

func genLen(t *rapid.T, big bool) int {
	switch k := rapid.IntRange(0, 19).Draw(t, "lenClass"); {
	case k < 10:
		return rapid.IntRange(0, 40).Draw(t, "len")
	case k < 16:
		return rapid.SampledFrom(lenEdges).Draw(t, "lenEdge")
	case k < 18 || !big:
		return rapid.IntRange(0, 700).Draw(t, "lenMid")
	default:
		return rapid.SampledFrom(lenEdgesBig).Draw(t, "lenBig")
	}
}

var byteGen = rapid.OneOf(
	rapid.SampledFrom([]byte{0, 0, 0xff, 0x80, 0x7f, 0xfd, 0xfe, 0xf8, 0xdd, 0x60, 0xa0, 'a'}),
	rapid.Byte())

func genBlob(t *rapid.T, big bool) Blob {
	return Blob{Pat: rapid.SliceOfN(byteGen, 1, 9).Draw(t, "pat"), N: genLen(t, big)}
}

// genText draws short byte strings, as names and descriptions are.
func genText(t *rapid.T) []byte {
	if rapid.IntRange(0, 15).Draw(t, "longText") == 0 {
		b := genBlob(t, false)
		if rapid.IntRange(0, 19).Draw(t, "hugeText") == 0 {
			b.N = rapid.OneOf(rapid.SampledFrom(lenEdgesBig), rapid.IntRange(700, 20000)).Draw(t, "hugeLen")
		}
		return b.Bytes()
	}
	if rapid.IntRange(0, 15).Draw(t, "oddText") == 0 {
		return []byte(rapid.SampledFrom(oddTexts).Draw(t, "odd") + rapid.StringN(0, 6, 12).Draw(t, "text") + rapid.SampledFrom(oddTexts).Draw(t, "odd"))
	}
	return []byte(rapid.StringN(0, 12, 24).Draw(t, "text"))
}

// oddTexts are what well-meaning code likes to strip or convert.
var oddTexts = []string{"", "\ufeff", "\xff\xfe", " ", "\t", "\n", "\r\n", "\x00", "\x00\x00", "\xe9", "\xc3\x28", "\u00e9", "e\u0301",
	"\u200b", "\u2028", "\U0001f50a", "\x7f", "\x1b[0m", "\"", "'", "\\n", "%20", "&amp;", "~", "1", "0x"}

func genI32(t *rapid.T) int32 { return int32(genBits(t, 32)) }
func genI64(t *rapid.T) int64 { return genBits(t, 64) }

// genBits draws signed integers of up to n bits, crowded around powers of two.
func genBits(t *rapid.T, n int) int64 {
	switch rapid.IntRange(0, 3).Draw(t, "intClass") {
	case 0:
		return int64(rapid.IntRange(-300, 300).Draw(t, "small"))
	case 1:
		k := rapid.IntRange(0, n-1).Draw(t, "pow")
		d := int64(rapid.IntRange(-2, 2).Draw(t, "delta"))
		v := int64(1)<<uint(k) + d
		if rapid.Bool().Draw(t, "neg") {
			v = -v
		}
		if n == 32 {
			return int64(int32(v))
		}
		return v
	default:
		if n == 32 {
			return int64(rapid.Int32().Draw(t, "i32"))
		}
		return rapid.Int64().Draw(t, "i64")
	}
}

// genID draws an element number or path component.
func genID(t *rapid.T) int32 {
	switch rapid.IntRange(0, 5).Draw(t, "idClass") {
	case 0:
		return rapid.SampledFrom([]int32{0, 1, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456, math.MaxInt32}).Draw(t, "idEdge")
	case 1:
		if rapid.Bool().Draw(t, "idMiddle") {
			// the numbers of commands and constants among them
			return rapid.Int32Range(0, 80).Draw(t, "id")
		}
		return rapid.Int32Range(0, math.MaxInt32).Draw(t, "id")
	default:
		return rapid.Int32Range(0, 9).Draw(t, "idSmall")
	}
}

func genOID(t *rapid.T, min int) []int32 {
	n := rapid.IntRange(min, 6).Draw(t, "oidLen")
	if rapid.IntRange(0, 30).Draw(t, "oidLong") == 0 {
		n = rapid.IntRange(min, 60).Draw(t, "oidLen2")
		if rapid.IntRange(0, 9).Draw(t, "oidHuge") == 0 {
			pat := make([]int32, rapid.IntRange(1, 5).Draw(t, "oidPat"))
			for i := range pat {
				pat[i] = genID(t)
			}
			out := make([]int32, rapid.IntRange(60, 700).Draw(t, "oidLen3"))
			for i := range out {
				out[i] = pat[i%len(pat)]
			}
			return out
		}
	}
	out := make([]int32, n)
	for i := range out {
		out[i] = genID(t)
	}
	return out
}

// genReal draws float bits over all classes.
func genReal(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 7).Draw(t, "realClass") {
	case 0:
		return math.Float64bits(rapid.SampledFrom([]float64{0, 1, -1, 0.5, 2, 3, 10, 255, 256, 257, -0.1, 0.1, math.Pi, math.Inf(1), math.Inf(-1),
			math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0x1p-1022, 0x1p127, 0x1p128, 0x1p129, 0x1p-127, 0x1p-128, 0x1p-129, 0x1p255, 0x1p256, 0x1.fffffffffffffp-1022}).Draw(t, "realEdge"))
	case 1:
		return math.Float64bits(float64(rapid.IntRange(-100000, 100000).Draw(t, "realInt")) / 8)
	case 2, 3: // few mantissa bits, any exponent
		e := uint64(rapid.IntRange(1, 2046).Draw(t, "exp"))
		keep := rapid.IntRange(0, 52).Draw(t, "keep")
		m := rapid.Uint64Range(0, 1<<52-1).Draw(t, "mant") &^ (1<<uint(52-keep) - 1)
		s := uint64(rapid.IntRange(0, 1).Draw(t, "sign"))
		return s<<63 | e<<52 | m
	case 4: // subnormal
		return uint64(rapid.IntRange(0, 1).Draw(t, "sign"))<<63 | rapid.Uint64Range(0, 1<<52-1).Draw(t, "mant")
	case 5: // near one
		e := uint64(1023 + rapid.IntRange(-130, 130).Draw(t, "exp"))
		return uint64(rapid.IntRange(0, 1).Draw(t, "sign"))<<63 | e<<52 | rapid.Uint64Range(0, 1<<52-1).Draw(t, "mant")
	default:
		return rapid.Uint64().Draw(t, "bits")
	}
}

func sameReal(a, b float64) bool {
	return a == b || (math.IsNaN(a) && math.IsNaN(b))
}

func subnormal(f float64) bool { return f != 0 && math.Abs(f) < 0x1p-1022 }

// borrowed is a reader of a copy of b and tail, and what overwrites that copy
// of b: whoever hands bytes over may use them for other things afterwards.
func borrowed(b []byte, tail ...byte) (*asn1.ASNReader, func()) {
	c := append(append([]byte{}, b...), tail...)
	return asn1.NewASNReader(c), func() { scribble(c[:len(b)]) }
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 0xee
	}
}

func drain(w *asn1.ASNWriter) []byte {
	b := make([]byte, w.Len())
	if len(b) > 0 {
		w.Read(b)
	}
	return b
}

func sameOID(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func hexs(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("% x ... (%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("% x", b)
}

func diffBytes(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("differ at byte %d (got %d bytes, want %d): got %s want %s", i, len(got), len(want), hexs(got[i:]), hexs(want[i:]))
}
