package props

import (
	"fmt"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/peer"
	"vpharness/s101"
)

// ---- C31: a client's tree follows its provider

// followCase is a history of what a provider sends to one client, asked or not.
type followCase struct {
	Steps []followStep
}

// followStep changes listeners or sends a batch.
type followStep struct {
	Op   ListenOp // add, remove; batch, hangup, disconnect
	Wire wire
	Send []followItem `json:",omitempty"`
	Torn *followItem  `json:",omitempty"` // begins on the connection that ends and goes on on the next
}

// followItem is one thing in a batch.
type followItem struct {
	Kind string // msg; damaged, cut, junk, foreign, half: nothing that counts
	Msg  HMsg
	At   int
	N    int
	Raw  []byte `json:",omitempty"`
	Gap  int    // µs before
	// Burst sends a message over and over, at least so many bytes at once
	Burst int `json:",omitempty"`
}

var foreign = [][]byte{{0x61, 0}, {0x04, 1, 0}, {0x60, 5, 0x6b}, {0x60, 0x80, 0x6b, 0x80}, {0x30, 3, 2, 1, 5}, {0x60}, {0xff, 0xff, 0xff}, {0x60, 4, 0x6b, 2, 0xa0, 0x80}}

func genFollow(t *rapid.T) followCase {
	u := genUniverse(t)
	var c followCase
	root := newM("", nil, 0)
	var known [][]int32 // as of the last batch
	o := &histOpts{dups: rapid.IntRange(0, 3).Draw(t, "dups") == 0}
	w := genWire(t)
	n := rapid.IntRange(4, 20).Draw(t, "steps")
	if rapid.IntRange(0, 250).Draw(t, "longHistory") == 77 {
		n = rapid.IntRange(21, 70).Draw(t, "manySteps")
	}
	for i := 0; i < n; i++ {
		var s followStep
		k := rapid.IntRange(0, 11).Draw(t, "step")
		switch {
		case k < 5 || i == 0:
			s.Op.Op = "batch"
			if rapid.IntRange(0, 3).Draw(t, "rewire") == 0 {
				w = genWire(t)
			}
			s.Wire = w
			for k, m := 0, rapid.IntRange(1, 5).Draw(t, "items"); k < m; k++ {
				it := followItem{Kind: "msg"}
				if !(i == 0 && k == 0) && rapid.IntRange(0, 2).Draw(t, "spoilt") == 0 {
					it.Kind = rapid.SampledFrom([]string{"damaged", "cut", "junk", "foreign", "half"}).Draw(t, "kind")
				}
				switch it.Kind {
				case "junk":
					it.Raw = rapid.SliceOfN(rapid.ByteRange(0, 0xf7), 1, 30).Draw(t, "junk")
				case "foreign":
					it.Raw = rapid.SampledFrom(foreign).Draw(t, "foreign")
				default:
					it.Msg = genHMsg(t, u, root.paths(), o)
					if it.Kind == "msg" {
						root.announce(it.Msg.Es, nil)
					}
				}
				it.At, it.N = rapid.IntRange(0, 3000).Draw(t, "at"), rapid.IntRange(0, 3000).Draw(t, "frame")
				if it.Kind == "msg" && rapid.IntRange(0, 30).Draw(t, "burst") == 30 {
					it.Burst = rapid.IntRange(1000, 250000).Draw(t, "size")
				}
				it.Gap = rapid.SampledFrom([]int{0, 0, 0, 0, 200, 1500}).Draw(t, "gap")
				s.Send = append(s.Send, it)
			}
			known = root.paths()
		case k == 5:
			s.Op.Op = rapid.SampledFrom([]string{"hangup", "disconnect"}).Draw(t, "end")
			if rapid.Bool().Draw(t, "torn") {
				s.Torn = &followItem{Kind: "torn", Msg: genHMsg(t, u, root.paths(), o),
					At: rapid.IntRange(0, 3000).Draw(t, "at"), N: rapid.IntRange(0, 30).Draw(t, "frame")}
				s.Wire = w
			}
		default:
			s.Op = ListenOp{Op: "add", L: rapid.IntRange(0, 3).Draw(t, "listener"), Once: rapid.IntRange(0, 3).Draw(t, "once") == 0}
			if k >= 11 {
				s.Op.Op = "remove"
			}
			if rapid.IntRange(0, 14).Draw(t, "crowd") == 0 {
				s.Op.More = rapid.IntRange(1, crowd).Draw(t, "more")
			}
			if rapid.IntRange(0, 4).Draw(t, "atRoot") > 0 {
				s.Op.Path = rapid.SampledFrom(append(append([][]int32{}, known...), nil)).Draw(t, "at")
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// bytes is the stream of an item; whole tells that a message is in it.
func (it followItem) bytes(w wire, nth *int) (out []byte, reqs int) {
	payload := it.Raw
	if it.Kind != "foreign" && it.Kind != "junk" {
		payload = it.Msg.Style.Root(it.Msg.Es)
	}
	switch it.Kind {
	case "junk":
		return it.Raw, 0
	case "msg", "foreign":
		return w.stream(payload, nth)
	}
	frames := s101.Split(payload, w.Sizes)
	if len(frames) > 300 {
		frames = s101.Split(payload, nil)
	}
	i := it.N % len(frames)
	switch it.Kind {
	case "half": // the rest never comes
		if i == len(frames)-1 {
			i--
		}
		for _, f := range frames[:i+1] {
			out = append(out, f...)
		}
	case "cut":
		f := frames[i]
		frames[i] = f[:1+it.At%(len(f)-1)]
		for _, f := range frames {
			out = append(out, f...)
		}
	case "damaged":
		f := append([]byte{}, frames[i]...)
		at := 1 + it.At%(len(f)-2)
		// no frame delimiter may come or go
		if f[at] >= 0xf8 || f[at-1] == 0xfd || f[at]^0x15 >= 0xf8 {
			return nil, 0
		}
		f[at] ^= 0x15
		frames[i] = f
		for _, f := range frames {
			out = append(out, f...)
		}
	}
	return out, 0
}

// tear cuts a message in two, neither of which holds a frame that is a message.
func (it followItem) tear(w wire) (first, rest []byte) {
	frames := s101.Split(it.Msg.Style.Root(it.Msg.Es), w.Sizes)
	if len(frames) > 300 {
		frames = s101.Split(it.Msg.Style.Root(it.Msg.Es), nil)
	}
	i := it.N % len(frames)
	var all []byte
	at := 0
	for k, f := range frames {
		if k == i {
			at = len(all)
			if i == 0 || it.At%2 == 0 {
				// amid the frame: some of its contents on either side
				at += 2 + it.At%(len(f)-4)
			}
		}
		all = append(all, f...)
	}
	return all[:at], all[at:]
}

func runFollow(c followCase, o *engine.Obs) error {
	p, err := peer.New()
	if err != nil {
		panic(err)
	}
	defer p.Close()
	client := newClient()
	defer client.Disconnect()
	var a *actor
	connect := func() error {
		if e := client.Connect("127.0.0.1", p.Port); e != nil {
			return fmt.Errorf("connect: %s", emsg(e))
		}
		conn := p.Next()
		if conn == nil {
			return hung("client didn't connect")
		}
		a = newActor(conn, wire{}, nil, nil)
		return nil
	}
	if err := connect(); err != nil {
		return err
	}
	// the first message hands over the tree
	var tree *embertree.RootElement
	grab := &outcomes{}
	grab.then = func(x interface{}) {
		if r, ok := x.(*embertree.RootElement); ok {
			tree = r
			r.RemoveListener(grab)
		}
	}
	if e := client.GetDirectory(nil, grab); e != nil {
		return fmt.Errorf("GetDirectory: %s", emsg(e))
	}
	if !soon(func() bool { return a.arrived() == 1 || a.broken() != nil }) {
		return hung("request for the root didn't arrive")
	}
	root := newM("", nil, 0)
	ears, placed := newEars(4 + crowd)
	heard, lost, ends, bursts, torn := 0, 0, 0, 0, 0
	for i, s := range c.Steps {
		step := func(err error) error { return fmt.Errorf("step %d (%s): %w", i, s.Op.Op, err) }
		switch s.Op.Op {
		case "add", "remove":
			if err := placeEars(tree, ears, placed, s.Op); err != nil {
				return step(err)
			}
		case "hangup", "disconnect":
			ends++
			var rest []byte
			if s.Torn != nil {
				var first []byte
				if first, rest = s.Torn.tear(s.Wire); len(first) > 0 {
					_ = a.conn.Send(first, nil, nil)
					time.Sleep(5 * time.Millisecond)
					torn++
				}
			}
			if s.Op.Op == "hangup" {
				a.conn.Close()
				if !soon(func() bool { return !client.IsConnected() }) {
					return step(hung("the hang-up isn't noticed"))
				}
			} else if e := client.Disconnect(); e != nil {
				return step(fmt.Errorf("disconnect: %s", emsg(e)))
			}
			if err := connect(); err != nil {
				return step(err)
			}
			if len(rest) > 0 {
				_ = a.conn.Send(rest, nil, nil)
			}
		case "batch":
			existed := map[string]bool{}
			for _, p := range root.paths() {
				existed[pathKey(p)] = true
			}
			for _, l := range ears {
				l.byPath, l.roots, l.removed = map[string][]call{}, 0, map[string]bool{}
			}
			h, least, n := hits{}, hits{}, 0
			for _, it := range s.Send {
				if it.Gap > 0 {
					time.Sleep(time.Duration(it.Gap) * time.Microsecond)
				}
				a.mu.Lock()
				b, reqs := it.bytes(s.Wire, &a.nth)
				times := 1
				for it.Burst > 0 && len(b) < it.Burst && times < 1000 {
					again, more := it.bytes(s.Wire, &a.nth)
					b, reqs = append(b, again...), reqs+more
					times++
				}
				a.keeps += reqs
				a.mu.Unlock()
				if times > 1 {
					bursts++
					_ = a.conn.Send(b, nil, nil)
				} else {
					_ = a.conn.Send(b, s.Wire.Chunks, s.Wire.Gaps)
				}
				if it.Kind != "msg" {
					lost++
					continue
				}
				for ; times > 0; times-- {
					one := hits{}
					root.announce(it.Msg.Es, one)
					for k, x := range one {
						h[k] += x
						least[k]++
					}
					n++
				}
			}
			if err := a.fence(); err != nil {
				return step(err)
			}
			if tree == nil {
				return step(fmt.Errorf("the root's listener isn't called by the first message"))
			}
			if err := root.checkRoot(tree); err != nil {
				return step(err)
			}
			k, err := judgeEars(tree, ears, placed, existed, h, least, n, false)
			if err != nil {
				return step(err)
			}
			heard += k
		}
	}
	if err := a.fence(); err != nil {
		return err
	}
	if err := root.checkRoot(tree); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	if n := grab.n(); n != 1 {
		return fmt.Errorf("listener that removed itself is called %d times", n)
	}
	if heard == 0 || len(root.paths()) < 2 {
		o.Trivial()
	}
	if lost > 0 {
		o.Label("amid damage")
	}
	if bursts > 0 {
		o.Label("bursts")
	}
	if torn > 0 {
		o.Label("messages torn apart")
	}
	if ends > 0 {
		o.Label("several connections")
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID:    "C31",
		Title: "A client's tree follows its provider",
		Rule:  "two elements or more in the tree, and a listener in the tree heard of an update",
		Live:  true,
		Subs:  []engine.Sub{engine.NewSubLimits("histories", 1500, 30000, clientLimits, genFollow, runFollow)},
	})
}
