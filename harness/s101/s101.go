// Package s101 is an independent S101 codec, written from the protocol's
// description: bitwise CRC, explicit framing.
package s101

import "fmt"

// Bytes with a meaning of their own on the wire.
const (
	BOF = 0xfe
	EOF = 0xff
	CE  = 0xfd
	Inv = 0xf8 // this and above are reserved
)

// Packet flags.
const (
	First  = 0x80
	Last   = 0x40
	Empty  = 0x20
	Single = First | Last
)

// Commands.
const (
	Ember = 0
	Req   = 1
	Resp  = 2
)

// CRC is the CRC-16/X-25 register after b, before the final complement.
func CRC(b []byte) uint16 {
	crc := uint16(0xffff)
	for _, x := range b {
		crc ^= uint16(x)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0x8408
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

// Good says whether contents followed by their CRC check out.
func Good(b []byte) bool { return len(b) >= 2 && CRC(b) == 0xf0b8 }

// Escape writes b with reserved bytes escaped.
func Escape(dst, b []byte) []byte {
	for _, x := range b {
		if x >= Inv {
			dst = append(dst, CE, x^0x20)
		} else {
			dst = append(dst, x)
		}
	}
	return dst
}

// Frame wraps contents: BOF, escaped contents and CRC, EOF.
func Frame(contents []byte) []byte {
	crc := ^CRC(contents)
	b := append(append([]byte{}, contents...), byte(crc), byte(crc>>8))
	return append(Escape([]byte{BOF}, b), EOF)
}

// EmberFrame is one frame of a Glow message.
func EmberFrame(flags byte, part []byte) []byte { return EmberFrameAs(1, 0x1f, 2, flags, part) }

// EmberFrameAs is such a frame by the given versions of S101 and Glow.
func EmberFrameAs(version, minor, major, flags byte, part []byte) []byte {
	return Frame(append([]byte{0, 0x0e, Ember, version, flags, 1, 2, minor, major}, part...))
}

// KeepAlive is a keep-alive request or response.
func KeepAlive(cmd byte) []byte { return Frame([]byte{0, 0x0e, cmd, 1}) }

// Split cuts payload into frames of the given sizes, the last size repeating;
// size 0 makes a frame flagged empty.
func Split(payload []byte, sizes []int) [][]byte { return SplitAs(1, 0x1f, 2, payload, sizes) }

// SplitAs cuts payload into frames by the given versions of S101 and Glow.
func SplitAs(version, minor, major byte, payload []byte, sizes []int) [][]byte {
	var parts [][]byte
	empties := 0
	for i := 0; len(payload) > 0 || len(parts) == 0; i++ {
		n := 1024
		if len(sizes) > 0 {
			n = sizes[min(i, len(sizes)-1)]
		}
		if n == 0 {
			if empties++; empties > 3 {
				n = 7
			}
		}
		n = min(n, len(payload))
		parts = append(parts, payload[:n])
		payload = payload[n:]
	}
	var out [][]byte
	for i, p := range parts {
		var f byte
		if i == 0 {
			f |= First
		}
		if i == len(parts)-1 {
			f |= Last
		}
		if len(p) == 0 {
			f |= Empty
		}
		out = append(out, EmberFrameAs(version, minor, major, f, p))
	}
	return out
}

// Event is what a decoder makes of one frame.
type Event struct {
	Kind string // message, part, req, resp, bad
	Data []byte // of a message, assembled
	Why  string
}

// Decoder is a strict decoder of a stream.
type Decoder struct {
	in   []byte
	open bool
	esc  bool
	msg  []byte
	inM  bool
	// Frames counts well-formed Ember frames, by flags.
	Frames map[byte]int
}

// Feed returns the events the bytes complete.  Anything but clean framing is an event of kind bad.
func (d *Decoder) Feed(b []byte) []Event {
	var out []Event
	bad := func(format string, a ...any) {
		out = append(out, Event{Kind: "bad", Why: fmt.Sprintf(format, a...)})
		d.inM = false
	}
	for _, x := range b {
		switch {
		case x == BOF:
			if d.open {
				bad("frame begins within a frame")
			}
			d.open, d.esc, d.in = true, false, nil
		case x == EOF:
			if !d.open {
				bad("end of frame outside a frame")
				continue
			}
			d.open = false
			if d.esc {
				bad("frame ends after an escape byte")
				continue
			}
			if e := d.frame(d.in); e.Kind != "" {
				if e.Kind == "bad" {
					d.inM = false
				}
				out = append(out, e)
			}
		case !d.open:
			bad("byte %#x outside a frame", x)
		case d.esc:
			if x^0x20 < Inv {
				bad("needless escape of %#x", x^0x20)
			}
			d.in, d.esc = append(d.in, x^0x20), false
		case x == CE:
			d.esc = true
		case x >= Inv:
			bad("reserved byte %#x unescaped", x)
		default:
			d.in = append(d.in, x)
		}
	}
	return out
}

func (d *Decoder) frame(b []byte) Event {
	bad := func(format string, a ...any) Event { return Event{Kind: "bad", Why: fmt.Sprintf(format, a...)} }
	if !Good(b) {
		return bad("wrong CRC in a frame of %d bytes", len(b))
	}
	b = b[:len(b)-2]
	if len(b) < 4 || b[0] != 0 || b[1] != 0x0e || b[3] != 1 {
		return bad("header % x", b[:min(len(b), 9)])
	}
	switch b[2] {
	case Req, Resp:
		if len(b) != 4 {
			return bad("keep-alive with contents % x", b)
		}
		if b[2] == Req {
			return Event{Kind: "req"}
		}
		return Event{Kind: "resp"}
	case Ember:
	default:
		return bad("command %d", b[2])
	}
	if len(b) < 9 || b[5] != 1 || b[6] != 2 || b[7] != 0x1f || b[8] != 2 {
		return bad("Ember header % x", b[:min(len(b), 9)])
	}
	flags, part := b[4], b[9:]
	if flags&^(First|Last|Empty) != 0 {
		return bad("flags %#x", flags)
	}
	if d.Frames == nil {
		d.Frames = map[byte]int{}
	}
	d.Frames[flags]++
	if (flags&First != 0) == d.inM {
		return bad("flags %#x, message under way %v", flags, d.inM)
	}
	if flags&First != 0 {
		d.msg, d.inM = nil, true
	}
	if flags&Empty == 0 {
		d.msg = append(d.msg, part...)
	} else if len(part) > 0 {
		return bad("frame flagged empty holds %d bytes", len(part))
	}
	if flags&Last == 0 {
		return Event{}
	}
	d.inM = false
	return Event{Kind: "message", Data: d.msg}
}

// Idle says whether the stream so far ends between messages.
func (d *Decoder) Idle() bool { return !d.open && !d.inM }
