package props

import (
	"bytes"
	"fmt"

	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/s101"
)

// genPayload draws payloads rich in reserved bytes, crowded around frame boundaries.
func genPayload(t *rapid.T) Blob {
	pat := rapid.SliceOfN(rapid.OneOf(
		rapid.SampledFrom([]byte{0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0xdd, 0xde, 0xdf, 0xd8, 0x20, 0, 1}),
		rapid.Byte()), 1, 9).Draw(t, "pat")
	var n int
	switch rapid.IntRange(0, 9).Draw(t, "payloadLen") {
	case 0, 1, 2, 3:
		n = rapid.IntRange(1, 60).Draw(t, "n")
	case 4, 5:
		n = 512*rapid.IntRange(1, 6).Draw(t, "blocks") + rapid.IntRange(-3, 3).Draw(t, "delta")
	case 6, 7:
		n = 1024*rapid.IntRange(1, 4).Draw(t, "blocks") + rapid.IntRange(-3, 3).Draw(t, "delta")
	case 8:
		n = rapid.IntRange(60, 3000).Draw(t, "n")
	default:
		n = rapid.IntRange(1, 20000).Draw(t, "n")
		if rapid.IntRange(0, 15).Draw(t, "huge") == 0 {
			n = rapid.IntRange(20000, 700000).Draw(t, "hugeN")
		}
	}
	if n >= 1024 && rapid.Bool().Draw(t, "exact") {
		// so that the octets, as escaped, fill a number of frames exactly
		want := 1024*(n/1024) + rapid.IntRange(0, 1).Draw(t, "odd")
		for n = 0; want > 0; n++ {
			if want--; pat[n%len(pat)] >= s101.Inv {
				want--
			}
		}
	}
	return Blob{Pat: pat, N: n}
}

// framedMsg is a payload and how it is cut into frames: nil sizes mean the library's encoder.
type framedMsg struct {
	P     Blob
	Sizes []int
	Ver   []byte   `json:",omitempty"` // of S101, then minor and major of Glow, when not ours; with sizes
	Keep  []keepAt // keep-alives before the given frame (modulo their number, plus one)
}

type keepAt struct {
	At  int
	Cmd byte
	Lib bool
}

func genFramed(t *rapid.T, i int) framedMsg {
	m := framedMsg{P: genPayload(t)}
	// mark messages apart
	m.P.Pat = append([]byte{byte(i), byte(i * 37)}, m.P.Pat...)
	if rapid.IntRange(0, 2).Draw(t, "framer") > 0 {
		m.Sizes = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 9), rapid.SampledFrom([]int{64, 1000, 1024, 1500, 65536})), 1, 5).Draw(t, "sizes")
		if last := m.Sizes[len(m.Sizes)-1]; m.P.N/max(last, 1) > 300 {
			m.Sizes = append(m.Sizes, 500)
		}
		if rapid.IntRange(0, 2).Draw(t, "otherVersion") == 0 {
			m.Ver = []byte{rapid.SampledFrom([]byte{1, 1, 2}).Draw(t, "version"),
				rapid.SampledFrom([]byte{0, 4, 10, 20, 30, 32, 40, 50, 60}).Draw(t, "minor"), rapid.SampledFrom([]byte{2, 2, 1, 3}).Draw(t, "major")}
		}
	}
	m.Keep = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) keepAt {
		return keepAt{rapid.IntRange(0, 9).Draw(t, "at"), byte(rapid.IntRange(1, 2).Draw(t, "cmd")), rapid.Bool().Draw(t, "lib")}
	}), 0, 3).Draw(t, "keep")
	return m
}

func libFrames(payload []byte) ([][]byte, error) {
	list := socket.EncodeMessage(payload)
	var out [][]byte
	for i := 0; i < list.Size(); i++ {
		b, err := list.GetBytesAt(i)
		if err != nil {
			return nil, fmt.Errorf("GetBytesAt(%d) of %d: %s", i, list.Size(), emsg(err))
		}
		out = append(out, append([]byte{}, b...))
	}
	return out, nil
}

func (m framedMsg) frames() ([][]byte, error) {
	p := m.P.Bytes()
	if m.Sizes == nil {
		return libFrames(p)
	}
	if m.Ver != nil {
		return s101.SplitAs(m.Ver[0], m.Ver[1], m.Ver[2], p, m.Sizes), nil
	}
	return s101.Split(p, m.Sizes), nil
}

// heard is what a decoder reported.
type heard struct {
	msgs      [][]byte
	reqs, rsp int
	errs      []string
	order     []string
}

func decodeStream(stream []byte, chunks []int) *heard {
	return decodeStreamWith(stream, chunks, nil, func(*socket.S101Decoder) {})
}

var refusal = fmt.Errorf("the handler does not want it")

func decodeStreamWith(stream []byte, chunks []int, refuse []bool, setUp func(*socket.S101Decoder)) *heard {
	h := &heard{}
	verdict := func() errors.Error {
		if n := len(h.order); len(refuse) > 0 && refuse[n%len(refuse)] {
			return errors.NewError(refusal)
		}
		return nil
	}
	dec := socket.NewS101Decoder(
		func(b []byte) errors.Error { h.reqs++; h.order = append(h.order, "req"); return verdict() },
		func(b []byte) errors.Error { h.rsp++; h.order = append(h.order, "resp"); return verdict() },
		func(b []byte) errors.Error {
			// what is delivered stays as delivered: keep the slice itself
			h.msgs = append(h.msgs, b)
			h.order = append(h.order, "message")
			return verdict()
		},
		func(e errors.Error) {
			if e == nil || e.Message != refusal {
				h.errs = append(h.errs, emsg(e))
			}
		})
	setUp(dec)
	buf := make([]byte, 65536)
	for i := 0; len(stream) > 0; i++ {
		n := 65536
		if len(chunks) > 0 {
			n = chunks[i%len(chunks)]
		}
		n = min(n, len(stream), len(buf))
		copy(buf, stream[:n])
		dec.DecodeBuffer(n, buf)
		for j := range buf[:n] {
			buf[j] = 0xee
		}
		stream = stream[n:]
	}
	return h
}

func genChunks(t *rapid.T) []int {
	if rapid.IntRange(0, 3).Draw(t, "chunkClass") == 0 {
		return nil
	}
	return rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 30), rapid.IntRange(1, 3000)), 1, 6).Draw(t, "chunks")
}

type framingCase struct {
	Msgs   []framedMsg
	Chunks []int
	Refuse []bool `json:",omitempty"` // which deliveries the handlers answer with an error
}

func genFraming(t *rapid.T) framingCase {
	n := rapid.IntRange(1, 4).Draw(t, "msgs")
	c := framingCase{Chunks: genChunks(t)}
	for i := 0; i < n; i++ {
		c.Msgs = append(c.Msgs, genFramed(t, i))
	}
	if rapid.IntRange(0, 2).Draw(t, "refusing") == 0 {
		c.Refuse = rapid.SliceOfN(rapid.Bool(), 1, 5).Draw(t, "refuse")
	}
	return c
}

func runFraming(c framingCase, o *engine.Obs) error {
	var stream []byte
	var want [][]byte
	var order []string
	reqs, rsp := 0, 0
	multi, inside := false, false
	for _, m := range c.Msgs {
		fs, err := m.frames()
		if err != nil {
			return err
		}
		if len(fs) > 1 {
			multi = true
		}
		for i := 0; i <= len(fs); i++ {
			for _, k := range m.Keep {
				if k.At%(len(fs)+1) != i {
					continue
				}
				if i > 0 && i < len(fs) {
					inside = true
				}
				kind := "req"
				if k.Cmd == s101.Req {
					reqs++
				} else {
					rsp++
					kind = "resp"
				}
				order = append(order, kind)
				switch {
				case !k.Lib:
					stream = append(stream, s101.KeepAlive(k.Cmd)...)
				case k.Cmd == s101.Req:
					stream = append(stream, socket.GetKeepaliveRequest().Bytes()...)
				default:
					stream = append(stream, socket.GetKeepAliveResponse().Bytes()...)
				}
			}
			if i < len(fs) {
				stream = append(stream, fs[i]...)
			}
			if i == len(fs)-1 {
				order = append(order, "message")
			}
		}
		want = append(want, m.P.Bytes())
	}
	if multi {
		o.Label("several frames")
	}
	if inside {
		o.Label("keep-alive within a message")
	}
	if !multi && len(c.Chunks) == 0 && len(c.Msgs) == 1 {
		o.Trivial()
	}
	h := decodeStreamWith(stream, c.Chunks, c.Refuse, func(*socket.S101Decoder) {})
	if len(h.errs) > 0 {
		return fmt.Errorf("intact stream reported as damaged: %q", h.errs[0])
	}
	if len(h.msgs) != len(want) {
		return fmt.Errorf("%d messages delivered of %d", len(h.msgs), len(want))
	}
	for i := range want {
		if d := diffBytes(h.msgs[i], want[i]); d != "" {
			return fmt.Errorf("message %d: %s", i, d)
		}
	}
	if h.reqs != reqs || h.rsp != rsp {
		return fmt.Errorf("%d keep-alive requests and %d responses reported, want %d and %d", h.reqs, h.rsp, reqs, rsp)
	}
	if fmt.Sprint(h.order) != fmt.Sprint(order) {
		return fmt.Errorf("reported in order %v, want %v", h.order, order)
	}
	return nil
}

// ---- C20

func runWire(p Blob, o *engine.Obs) error {
	payload := p.Bytes()
	keep := append([]byte{}, payload...)
	list := socket.EncodeMessage(payload)
	if !bytes.Equal(keep, payload) {
		return fmt.Errorf("encoding changed the payload it was given")
	}
	n := list.Size()
	if n < 1 {
		return fmt.Errorf("no frames")
	}
	// the frames are there for good: neither the payload nor another message changes them
	scribble(payload)
	socket.EncodeMessage(payload)
	for _, i := range []int{-1, n, n + 1, n + 1000} {
		if _, err := list.GetAt(i); err == nil {
			return fmt.Errorf("GetAt(%d) of %d frames is no error", i, n)
		}
		if _, err := list.GetBytesAt(i); err == nil {
			return fmt.Errorf("GetBytesAt(%d) of %d frames is no error", i, n)
		}
	}
	dec := s101.Decoder{}
	var got [][]byte
	for i := 0; i < n; i++ {
		at, err := list.GetAt(i)
		if err != nil {
			return fmt.Errorf("GetAt(%d) of %d: %s", i, n, emsg(err))
		}
		frame := append([]byte{}, at.Bytes()...)
		b, err := list.GetBytesAt(i)
		if err != nil || !bytes.Equal(b, frame) {
			return fmt.Errorf("GetBytesAt(%d) differs from GetAt: %s", i, diffBytes(b, frame))
		}
		// a frame can be had again, whatever was done with it
		scribble(b)
		again, err := list.GetBytesAt(i)
		if err != nil || !bytes.Equal(again, frame) {
			return fmt.Errorf("GetBytesAt(%d) gives something else the second time: %s", i, diffBytes(again, frame))
		}
		if len(frame) < 2 || frame[0] != s101.BOF || frame[len(frame)-1] != s101.EOF {
			return fmt.Errorf("frame %d isn't delimited: %s", i, hexs(frame))
		}
		for _, e := range dec.Feed(frame) {
			if e.Kind != "message" {
				return fmt.Errorf("frame %d of %d: %s %s: %s", i, n, e.Kind, e.Why, hexs(frame))
			}
			if i != n-1 {
				return fmt.Errorf("message ends with frame %d of %d", i, n)
			}
			got = append(got, e.Data)
		}
		// the library's own check agrees
		_, raw := unframe(frame)
		if !socket.ValidateFrame(bytes.NewReader(raw)) {
			return fmt.Errorf("frame %d isn't valid to the library itself", i)
		}
		if len(raw) <= 11 {
			return fmt.Errorf("frame %d of %d carries nothing and isn't flagged empty", i, n)
		}
	}
	if len(got) != 1 {
		return fmt.Errorf("%d messages recovered from %d frames", len(got), n)
	}
	if d := diffBytes(got[0], keep); d != "" {
		return fmt.Errorf("payload recovered from the frames: %s", d)
	}
	want := map[byte]int{s101.Single: 1}
	if n > 1 {
		want = map[byte]int{s101.First: 1, s101.Last: 1}
		if n > 2 {
			want[0] = n - 2
		}
		o.Label("several frames")
	} else if len(payload) < 3 {
		o.Trivial()
	}
	if fmt.Sprint(dec.Frames) != fmt.Sprint(want) {
		return fmt.Errorf("frames by flags %v, want %v", dec.Frames, want)
	}
	return nil
}

// unframe undoes escaping; ok is false for a frame that ends in an escape.
func unframe(frame []byte) (ok bool, out []byte) {
	esc := false
	for _, b := range frame {
		switch {
		case b == s101.BOF || b == s101.EOF:
		case esc:
			out, esc = append(out, b^0x20), false
		case b == s101.CE:
			esc = true
		default:
			out = append(out, b)
		}
	}
	return !esc, out
}

// crcCase: bytes, and bits flipped in them.
type crcCase struct {
	P    Blob
	Flip []int
}

func runCRC(c crcCase, o *engine.Obs) error {
	b := c.P.Bytes()
	if len(b) == 0 {
		o.Trivial()
	}
	want := s101.CRC(b)
	if got := socket.CalculateCRC(bytes.NewReader(b)); got != want {
		return fmt.Errorf("CRC of %s is %#04x, want %#04x", hexs(b), got, want)
	}
	if got := socket.CalculateCRCCE(bytes.NewReader(s101.Escape(nil, b))); got != want {
		return fmt.Errorf("CRC of escaped %s is %#04x, want %#04x", hexs(b), got, want)
	}
	full := append(append([]byte{}, b...), byte(^want), byte(^want>>8))
	if !socket.ValidateFrame(bytes.NewReader(full)) {
		return fmt.Errorf("frame contents with the right CRC aren't valid: %s", hexs(full))
	}
	for _, f := range c.Flip {
		k := f % (8 * len(full))
		full[k/8] ^= 1 << uint(k%8)
	}
	if got, want := socket.ValidateFrame(bytes.NewReader(full)), s101.Good(full); got != want {
		return fmt.Errorf("frame contents %s valid: %v, want %v", hexs(full), got, want)
	}
	return nil
}

// runKeepAlives: each call yields the frame anew, whatever is done to others.
func runKeepAlives(_ int, o *engine.Obs) error {
	for i := 0; i < 4; i++ {
		if err := keepAlives(); err != nil {
			return fmt.Errorf("time %d: %w", i, err)
		}
		for _, b := range []*bytes.Buffer{socket.GetKeepaliveRequest(), socket.GetKeepAliveResponse()} {
			switch i {
			case 0:
				b.Next(b.Len())
			case 1:
				scribble(b.Bytes())
			case 2:
				b.WriteString("more")
			}
		}
	}
	return nil
}

func keepAlives() error {
	for _, k := range []struct {
		name string
		got  []byte
		cmd  byte
		want []byte
	}{
		{"request", socket.GetKeepaliveRequest().Bytes(), s101.Req, []byte{0xfe, 0, 0x0e, 1, 1, 0x94, 0xe4, 0xff}},
		{"response", socket.GetKeepAliveResponse().Bytes(), s101.Resp, []byte{0xfe, 0, 0x0e, 2, 1, 0xfd, 0xdc, 0xce, 0xff}},
	} {
		if !bytes.Equal(s101.KeepAlive(k.cmd), k.want) {
			return fmt.Errorf("harness: keep-alive %s", hexs(s101.KeepAlive(k.cmd)))
		}
		if d := diffBytes(k.got, k.want); d != "" {
			return fmt.Errorf("keep-alive %s: %s", k.name, d)
		}
	}
	return nil
}

// ---- C21

// wound damages the bytes of one frame.
type wound struct {
	Frame int    // which frame of its message, modulo their number
	Op    string // flip, del, ins, set, cutEnd, cutStart, dup
	At    int    // where, modulo the frame's length
	N     int    // how many
	B     []byte // inserted or set
}

// item is one element of a damaged stream.
type item struct {
	Kind   string // msg, junk, foreign, orphan, keep
	M      framedMsg
	Wounds []wound
	Cut    int // frames missing from the start (negative: from the end)
	B      []byte
}

type damageCase struct {
	Items  []item
	Chunks []int
}

var woundBytes = rapid.OneOf(rapid.SampledFrom([]byte{s101.BOF, s101.EOF, s101.CE, 0xde, 0xdd, 0xdf, 0xf8, 0x20, 0}), rapid.Byte())

func genWound(t *rapid.T) wound {
	w := wound{Frame: rapid.IntRange(0, 9).Draw(t, "frame"),
		Op: rapid.SampledFrom([]string{"flip", "flip", "del", "ins", "set", "cutEnd", "cutStart", "swap", "swap", "twice", "crc", "crc", "short"}).Draw(t, "op"),
		N:  rapid.IntRange(1, 4).Draw(t, "n")}
	switch rapid.IntRange(0, 4).Draw(t, "where") {
	case 0:
		w.At = rapid.IntRange(0, 11).Draw(t, "at") // header
	case 1:
		w.At = -rapid.IntRange(1, 6).Draw(t, "at") // CRC and EOF
	default:
		w.At = rapid.IntRange(0, 1200).Draw(t, "at")
	}
	if w.Op == "ins" || w.Op == "set" {
		w.B = rapid.SliceOfN(woundBytes, 1, 3).Draw(t, "b")
	}
	return w
}

func (w wound) apply(f []byte) []byte {
	if len(f) == 0 {
		return f
	}
	at := ((w.At % len(f)) + len(f)) % len(f)
	f = append([]byte{}, f...)
	switch w.Op {
	case "flip":
		f[at] ^= 1 << uint(w.N%8)
	case "del":
		f = append(f[:at], f[min(len(f), at+w.N):]...)
	case "ins":
		f = append(f[:at], append(append([]byte{}, w.B...), f[at:]...)...)
	case "set":
		copy(f[at:], w.B)
	case "swap":
		if at+1 < len(f) {
			f[at], f[at+1] = f[at+1], f[at]
		}
	case "twice":
		f = append(f[:at], append([]byte{f[at]}, f[at:]...)...)
	case "crc":
		f = otherCRC(f, w.N+4*w.At)
	case "short":
		f = shortened(f, w.N+4*w.At)
	case "cutEnd":
		f = f[:max(1, len(f)-w.N*max(1, at/4))]
	case "cutStart":
		f = f[min(len(f)-1, w.N*max(1, at/4)):]
	}
	return f
}

// otherCRC replaces the CRC of a frame by one that another algorithm yields.
func otherCRC(f []byte, k int) []byte {
	ok, b := unframe(f)
	if !ok || len(b) < 2 || f[0] != s101.BOF || f[len(f)-1] != s101.EOF {
		return f
	}
	b = b[:len(b)-2]
	crc := ^s101.CRC(b)
	switch ((k % 7) + 7) % 7 {
	case 0: // the octets exchanged
		crc = crc>>8 | crc<<8
	case 1: // not complemented
		crc = ^crc
	case 2: // neither, and exchanged
		crc = ^(crc>>8 | crc<<8)
	case 3: // none
		crc = 0
	case 4:
		crc = 0xffff
	case 5: // of the contents without the first octet
		crc = ^s101.CRC(b[min(1, len(b)):])
	case 6: // of the escaped contents
		crc = ^s101.CRC(s101.Escape(nil, b))
	}
	b = append(append([]byte{}, b...), byte(crc), byte(crc>>8))
	return append(s101.Escape([]byte{s101.BOF}, b), s101.EOF)
}

// shortened is what is left of an ember frame whose sender ended it within the header: its CRC is right.
func shortened(f []byte, k int) []byte {
	ok, b := unframe(f)
	if !ok || len(b) < 9+2 || f[0] != s101.BOF || f[len(f)-1] != s101.EOF || !s101.Good(b) {
		return f
	}
	return s101.Frame(b[:3+((k%6)+6)%6])
}

func genDamage(t *rapid.T) damageCase {
	c := damageCase{Chunks: genChunks(t)}
	n := rapid.IntRange(1, 6).Draw(t, "items")
	for i := 0; i < n; i++ {
		it := item{Kind: rapid.SampledFrom([]string{"msg", "msg", "msg", "msg", "junk", "foreign", "orphan", "keep"}).Draw(t, "kind")}
		switch it.Kind {
		case "msg", "orphan":
			it.M = genFramed(t, i)
			if rapid.Bool().Draw(t, "short") {
				it.M.P.N = rapid.IntRange(1, 40).Draw(t, "n")
				it.M.Sizes = []int{rapid.IntRange(1, 12).Draw(t, "size")}
			}
			it.M.Keep = nil
			if it.Kind == "msg" && rapid.IntRange(0, 2).Draw(t, "hurt") > 0 {
				it.Wounds = rapid.SliceOfN(rapid.Custom(genWound), 1, 3).Draw(t, "wounds")
			}
			if it.Kind == "orphan" || rapid.IntRange(0, 5).Draw(t, "cut") == 0 {
				it.Cut = rapid.IntRange(-3, 3).Draw(t, "cutFrames")
			}
		case "junk":
			it.B = rapid.SliceOfN(woundBytes, 1, 6).Draw(t, "junk")
		case "foreign":
			// a frame whose CRC is right and whose header isn't
			b := []byte{0, 0x0e, 0, 1, 0xc0, 1, 2, 0x1f, 2, 0x60, 0}
			switch rapid.IntRange(0, 1).Draw(t, "foreignClass") {
			case 0:
				b = b[:rapid.IntRange(0, 8).Draw(t, "len")]
			default:
				k := rapid.SampledFrom([]int{0, 1, 2, 5, 6}).Draw(t, "field")
				v := rapid.Byte().Draw(t, "v")
				if v == b[k] || (k == 2 && v <= 2) {
					v = 0x77
				}
				b[k] = v
			}
			it.B = b
		case "keep":
			it.B = []byte{byte(rapid.IntRange(1, 2).Draw(t, "cmd"))}
		}
		c.Items = append(c.Items, it)
	}
	return c
}

// scanned is a stretch of a stream between delimiters.
type scanned struct {
	open bool // begins with BOF
	eof  bool // ends with EOF
	ok   bool // doesn't end in an escape
	raw  []byte
}

func scan(stream []byte) []scanned {
	var out []scanned
	start, open := 0, false
	for i, b := range stream {
		if b != s101.BOF && b != s101.EOF {
			continue
		}
		if i > start || b == s101.EOF {
			ok, raw := unframe(stream[start:i])
			out = append(out, scanned{open, b == s101.EOF, ok, raw})
		}
		start, open = i+1, b == s101.BOF
	}
	return out
}

func runDamage(c damageCase, o *engine.Obs) error {
	type sent struct {
		payload []byte
		frames  [][]byte // contents with CRC
		must    bool
	}
	var stream []byte
	var msgs []sent
	foreign := 0
	known := map[string]bool{} // contents of frames that were sent
	openTail := false          // a message lacks its last frames, and nothing has begun since
	hurt := false
	for _, it := range c.Items {
		switch it.Kind {
		case "junk":
			stream = append(stream, it.B...)
			hurt = true
		case "keep":
			f := s101.KeepAlive(it.B[0])
			_, raw := unframe(f)
			known[string(raw)] = true
			stream = append(stream, f...)
		case "foreign":
			f := s101.Frame(it.B)
			_, raw := unframe(f)
			known[string(raw)] = true
			stream = append(stream, f...)
			foreign++
			hurt = true
		case "msg", "orphan":
			fs, err := it.M.frames()
			if err != nil {
				return err
			}
			s := sent{payload: it.M.P.Bytes(), must: true}
			for _, f := range fs {
				_, raw := unframe(f)
				s.frames = append(s.frames, raw)
				known[string(raw)] = true
			}
			cut := it.Cut
			switch {
			case cut > 0 && (len(fs) <= cut || openTail):
				cut = 0
			case cut < 0 && len(fs) <= -cut:
				cut = 0
			}
			if cut == 0 && it.Kind == "orphan" && (len(fs) < 2 || openTail) {
				continue
			} else if cut == 0 && it.Kind == "orphan" {
				cut = 1
			}
			wounds := append([]wound{}, it.Wounds...)
			sentFs := make([][]byte, len(fs))
			copy(sentFs, fs)
			for _, w := range wounds {
				k := w.Frame % len(fs)
				if (cut > 0 && k < cut) || (cut < 0 && k >= len(fs)+cut) {
					continue
				}
				if len(sentFs[k]) == 0 {
					continue
				}
				f := w.apply(sentFs[k])
				if len(f) == 0 {
					continue // a frame gone without a trace is no visible damage
				}
				sentFs[k] = f
				if w.Op == "short" {
					if ok, raw := unframe(f); ok && s101.Good(raw) {
						known[string(raw)] = true
						o.Label("frame that ends in its header")
					}
				}
			}
			for k := range fs {
				if !bytes.Equal(fs[k], sentFs[k]) {
					s.must, hurt = false, true
					o.Label("damaged frame")
				}
			}
			from, to := 0, len(fs)
			if cut > 0 {
				from, s.must, hurt = cut, false, true
				o.Label("first frames missing")
			} else if cut < 0 {
				to, s.must, hurt = len(fs)+cut, false, true
				o.Label("last frames missing")
			}
			openTail = cut < 0
			for k := from; k < to; k++ {
				stream = append(stream, sentFs[k]...)
			}
			msgs = append(msgs, s)
		}
	}
	if !hurt {
		o.Trivial()
	}
	segs := scan(stream)
	mustErr := 0
	for _, s := range segs {
		good := s.ok && s101.Good(s.raw)
		if good && !known[string(s.raw)] {
			o.Label("(CRC collision)")
			o.Trivial()
			return nil
		}
		if s.open && s.eof && !good {
			mustErr++
		}
	}
	mustErr += foreign // each is a complete frame of its own, unless damage before swallows it
	for _, it := range c.Items {
		if it.Kind != "foreign" {
			continue
		}
		_, raw := unframe(s101.Frame(it.B))
		found := 0
		for _, s := range segs {
			if s.open && s.eof && s.ok && bytes.Equal(s.raw, raw) {
				found++
			}
		}
		if found == 0 {
			mustErr--
		}
	}
	// damages can add up to a clean stream that lacks frames in the middle of a message
	var strict s101.Decoder
	for _, e := range strict.Feed(stream) {
		if e.Kind != "message" {
			continue
		}
		original := false
		for _, m := range msgs {
			original = original || bytes.Equal(m.payload, e.Data)
		}
		if !original {
			o.Label("(invisible damage)")
			o.Trivial()
			return nil
		}
	}
	h := decodeStream(stream, c.Chunks)
	arrived := func(s sent) bool {
		k := 0
		for _, g := range segs {
			if k < len(s.frames) && g.ok && g.eof && bytes.Equal(g.raw, s.frames[k]) {
				k++
			}
		}
		return k == len(s.frames)
	}
	at := 0
	for i, d := range h.msgs {
		j := at
		for j < len(msgs) && !bytes.Equal(msgs[j].payload, d) {
			if msgs[j].must {
				return fmt.Errorf("intact message %d (%s) wasn't delivered; delivered instead %s", j, hexs(msgs[j].payload), hexs(d))
			}
			j++
		}
		if j == len(msgs) {
			return fmt.Errorf("delivery %d is no message that was sent: %s", i, hexs(d))
		}
		if !msgs[j].must && !arrived(msgs[j]) {
			return fmt.Errorf("message %d was delivered though its frames didn't all arrive intact: %s", j, hexs(d))
		}
		at = j + 1
	}
	for ; at < len(msgs); at++ {
		if msgs[at].must {
			return fmt.Errorf("intact message %d (%s) wasn't delivered", at, hexs(msgs[at].payload))
		}
	}
	if len(h.errs) < mustErr {
		return fmt.Errorf("%d complete frames fail their checks, %d errors reported", mustErr, len(h.errs))
	}
	for _, e := range h.errs {
		if e == "<nil>" || e == "<error without message>" {
			return fmt.Errorf("error handler called with %s", e)
		}
	}
	return nil
}

type noiseCase struct {
	B      Blob
	Tail   framedMsg
	Chunks []int
}

// runNoise: arbitrary bytes, then an intact message.
func runNoise(c noiseCase, o *engine.Obs) error {
	noise := c.B.Bytes()
	fs, err := c.Tail.frames()
	if err != nil {
		return err
	}
	stream := append([]byte{}, noise...)
	for _, f := range fs {
		stream = append(stream, f...)
	}
	good := 0
	for _, s := range scan(append(append([]byte{}, noise...), s101.BOF)) {
		if s.ok && s101.Good(s.raw) {
			good++
		}
	}
	if good > 0 {
		o.Label("noise holds good frames")
	}
	h := decodeStream(stream, c.Chunks)
	if len(h.msgs) < 1 || len(h.msgs) > good+1 {
		return fmt.Errorf("%d messages delivered from noise with %d good frames and one message", len(h.msgs), good)
	}
	if d := diffBytes(h.msgs[len(h.msgs)-1], c.Tail.P.Bytes()); d != "" {
		return fmt.Errorf("message after noise: %s", d)
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID:    "C19",
		Title: "Any payload survives S101 framing in any chunking",
		Rule:  "the stream has several frames or messages, or arrives in several pieces",
		Subs: []engine.Sub{
			engine.NewSub("streams", 6000, 120000, genFraming, runFraming),
			engine.NewEnum("long", func(yield func(framingCase) bool) {
				for _, n := range []int{1<<18 + 1, 1<<20 - 1, 1<<20 + 1, 3<<20 + 7, 1<<24 + 1} {
					for _, own := range []bool{true, false} {
						m := framedMsg{P: Blob{Pat: []byte{1, 2, 0xfe, 3, 5, 7, 11}, N: n}}
						if !own {
							m.Sizes = []int{60000}
						}
						if !yield(framingCase{Msgs: []framedMsg{m, {P: Blob{Pat: []byte{9}, N: 20}}}}) {
							return
						}
					}
				}
			}, runFraming),
		},
	})
	register(&engine.Property{
		ID:    "C20",
		Title: "S101 frames follow the wire format exactly",
		Rule:  "payload of three bytes or more, or several frames; CRC of one byte or more",
		Subs: []engine.Sub{
			engine.NewSub("frames", 8000, 150000, genPayload, runWire),
			engine.NewSub("crc", 20000, 400000, func(t *rapid.T) crcCase {
				return crcCase{Blob{rapid.SliceOfN(byteGen, 1, 40).Draw(t, "pat"), rapid.IntRange(0, 300).Draw(t, "n")},
					rapid.SliceOfN(rapid.IntRange(0, 20000), 0, 4).Draw(t, "flip")}
			}, runCRC),
			engine.NewEnum("bytes", func(yield func(crcCase) bool) {
				for a := 0; a < 256; a++ {
					for b := 0; b < 256; b++ {
						if !yield(crcCase{P: Blob{[]byte{byte(a), byte(b)}, 2}}) {
							return
						}
					}
				}
			}, runCRC),
			engine.NewEnum("short", func(yield func(Blob) bool) {
				for a := 0; a < 256; a++ {
					if !yield(Blob{[]byte{byte(a)}, 1}) {
						return
					}
					for b := 0; b < 256; b++ {
						if !yield(Blob{[]byte{byte(a), byte(b)}, 2}) {
							return
						}
					}
				}
			}, runWire),
			engine.NewEnum("keepalives", func(yield func(int) bool) { yield(0) }, runKeepAlives),
		},
	})
	register(&engine.Property{
		ID:          "C21",
		Title:       "Damaged S101 streams never deliver altered payloads",
		Rule:        "at least one damage",
		Assumptions: []string{"whole frames that vanish from the middle of a message without a trace, and damage the CRC doesn't see, can't be detected and are left out"},
		Subs: []engine.Sub{
			engine.NewSub("damages", 20000, 400000, genDamage, runDamage),
			engine.NewSub("noise", 6000, 100000, func(t *rapid.T) noiseCase {
				c := noiseCase{Tail: genFramed(t, 1), Chunks: genChunks(t)}
				c.Tail.Keep = nil
				c.B = Blob{rapid.SliceOfN(woundBytes, 1, 60).Draw(t, "noise"), rapid.IntRange(1, 300).Draw(t, "n")}
				return c
			}, runNoise),
		},
	})
}
