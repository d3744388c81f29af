package props

import (
	"fmt"
	"strings"
	"sync"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"github.com/dufourgilles/emberlib/socket"
	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/glow"
	"vpharness/peer"
	"vpharness/s101"
)

// ---- C29: loggers

// recorder is a logger that keeps what it is told.
type recorder struct {
	mu    sync.Mutex
	level logger.LogLevel
	errs  []string
	lines int
	bad   string // the first call whose format doesn't fit
}

func (r *recorder) Error(e errors.Error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.errs = append(r.errs, emsg(e))
}

func (r *recorder) format(format string, a []interface{}) {
	_ = fmt.Sprintf(format, a...) // as a logger would
	// text may hold anything: judge the format by the types alone
	args := make([]interface{}, len(a))
	for i, x := range a {
		args[i] = x
		if _, ok := x.(string); ok {
			args[i] = "text"
		}
	}
	out := fmt.Sprintf(format, args...)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.lines++
	if strings.Contains(out, "%!") && r.bad == "" {
		r.bad = fmt.Sprintf("%q with %d arguments gives %q", format, len(a), out)
	}
}

func (r *recorder) Warn(f string, a ...interface{})  { r.format(f, a) }
func (r *recorder) Info(f string, a ...interface{})  { r.format(f, a) }
func (r *recorder) Debug(f string, a ...interface{}) { r.format(f, a) }
func (r *recorder) Debugln(a ...interface{}) {
	_ = fmt.Sprintln(a...)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.lines++
}
func (r *recorder) SetLogLevel(l logger.LogLevel) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.level = l
}
func (r *recorder) GetLogLevel() logger.LogLevel {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.level
}
func (r *recorder) logged() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.lines
}
func (r *recorder) problems() (n int, first string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.errs) > 0 {
		first = r.errs[0]
	}
	return len(r.errs), first
}

func (r *recorder) wellFormed() error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.bad != "" {
		return fmt.Errorf("log call whose format doesn't fit: %s", r.bad)
	}
	return nil
}

// treeText is what a tree holds, or that it can't be told.
func treeText(root *embertree.RootElement) string {
	w := asn1.NewASNWriter()
	if e := root.Encode(w); e != nil {
		return "not encodable"
	}
	es, err := glow.ParseRoot(drain(w))
	if err != nil {
		return "not legal"
	}
	return glow.RootText(es)
}

type logTreeCase struct {
	H     History
	Wild  [][]byte // faulty or contradicting each other
	Nil   bool     // a nil logger is given afterwards
	Level int
}

func runLogTree(c logTreeCase, o *engine.Obs) error {
	plain, logged := embertree.NewTree(), embertree.NewTree()
	rec := &recorder{level: levels[c.Level]}
	give := func(set func(logger.Logger)) {
		set(rec)
		if c.Nil {
			set(nil)
		}
	}
	give(logged.SetLogger)
	// what the user does with an element, told as text
	use := func(e *embertree.Element, ear embertree.Listener) string {
		e.AddListener(ear)
		text := fmt.Sprint(e.HasListner(ear))
		if x := e.GetContent(); x != nil {
			text += fmt.Sprint(e.SetContents(x) == nil)
		}
		e.RemoveListener(ear)
		m, err := e.GetDirectoryMsg(nil)
		if err != nil {
			return text + emsg(err)
		}
		return text + treeText(m) + treeText(e.GetQualifiedDirectoryMsg(nil))
	}
	var compare func(a, b *embertree.Element) error
	compare = func(a, b *embertree.Element) error {
		x, y := &outcomes{}, &outcomes{}
		if s, t := use(a, x), use(b, y); s != t || x.n() != y.n() {
			return fmt.Errorf("using element %v gives %q and %d calls, with a logger %q and %d", a.GetPath(), s, x.n(), t, y.n())
		}
		for n, k := range a.Children {
			if err := compare(k, b.Children[n]); err != nil {
				return err
			}
		}
		return nil
	}
	ears := []*outcomes{{}, {}}
	plain.AddListener(ears[0])
	logged.AddListener(ears[1])
	var visit func(e *embertree.Element)
	visit = func(e *embertree.Element) {
		give(e.SetLogger)
		for _, k := range e.Children {
			visit(k)
		}
	}
	for i, m := range c.H.Msgs {
		b := m.Style.Root(m.Es)
		e0, e1 := plain.Decode(asn1.NewASNReader(b)), logged.Decode(asn1.NewASNReader(b))
		if (e0 == nil) != (e1 == nil) {
			return fmt.Errorf("message %d gives %s, with a logger %s", i, emsg(e0), emsg(e1))
		}
		if a, b := treeText(plain), treeText(logged); a != b {
			return fmt.Errorf("message %d makes the tree %q, with a logger %q", i, a, b)
		}
		if a, b := ears[0].n(), ears[1].n(); a != b {
			return fmt.Errorf("after message %d the root's listener was called %d times, with a logger %d", i, a, b)
		}
		for _, el := range logged.RootElementCollection {
			visit(el)
		}
		for n, el := range plain.RootElementCollection {
			if err := compare(el, logged.RootElementCollection[n]); err != nil {
				return fmt.Errorf("after message %d: %w", i, err)
			}
		}
	}
	for i, b := range c.Wild {
		// how much of a faulty or contradicting message is applied, and in
		// which order, isn't specified: judge it on fresh trees, and on the
		// one that has a history only that nothing breaks and the log fits
		x, y := embertree.NewTree(), embertree.NewTree()
		give(y.SetLogger)
		e0, e1 := x.Decode(asn1.NewASNReader(b)), y.Decode(asn1.NewASNReader(b))
		if (e0 == nil) != (e1 == nil) {
			return fmt.Errorf("message %d on its own gives %s, with a logger %s", i, emsg(e0), emsg(e1))
		}
		if e := logged.Decode(asn1.NewASNReader(b)); e != nil {
			o.Label("rejected")
		}
		for _, el := range logged.RootElementCollection {
			visit(el)
		}
	}
	if err := rec.wellFormed(); err != nil {
		return err
	}
	if n, first := rec.problems(); n > 0 {
		return fmt.Errorf("the tree logs an error and returns it too: %s", first)
	}
	if rec.logged() == 0 {
		o.Trivial()
	}
	return nil
}

// runLogFrames: a decoder with a logger hears what one without does.
func runLogFrames(c noiseCase, o *engine.Obs) error {
	fs, err := c.Tail.frames()
	if err != nil {
		return err
	}
	stream := c.B.Bytes()
	for i, f := range fs {
		f := append([]byte{}, f...)
		if i%4 == 3 {
			f[len(f)/2] ^= 1
		}
		stream = append(stream, f...)
		if i%3 == 1 {
			stream = append(stream, s101.KeepAlive(byte(1+i%2))...)
		}
	}
	rec := &recorder{level: levels[len(stream)%4]}
	a, b := decodeStream(stream, c.Chunks), decodeStreamWith(stream, c.Chunks, nil, func(d *socket.S101Decoder) {
		d.SetLogger(rec)
		d.SetLogger(nil)
	})
	if x, y := fmt.Sprint(a.order, a.errs), fmt.Sprint(b.order, b.errs); x != y {
		return fmt.Errorf("decoder hears %s, with a logger %s", x, y)
	}
	for i := range a.msgs {
		if d := diffBytes(b.msgs[i], a.msgs[i]); d != "" {
			return fmt.Errorf("message %d with a logger: %s", i, d)
		}
	}
	if rec.logged() == 0 && len(a.msgs)+len(a.errs) > 0 {
		return fmt.Errorf("the logger given isn't used after no logger was given")
	}
	if err := rec.wellFormed(); err != nil {
		return err
	}
	if len(fs) < 2 {
		o.Trivial()
	}
	return nil
}

// What the peer of a logging client sends.
type logSay struct {
	Kind string // good, bad, short, damaged, foreign, keep
	Es   []*glow.Elem
	At   int
}

type logClientCase struct {
	Say  []logSay
	Wire wire
	Nil  bool
	Ask  bool
}

func genLogClient(t *rapid.T) logClientCase {
	c := logClientCase{Wire: genWire(t), Nil: rapid.Bool().Draw(t, "nil"), Ask: rapid.Bool().Draw(t, "ask")}
	n := rapid.IntRange(1, 12).Draw(t, "says")
	good := rapid.IntRange(0, 2).Draw(t, "good") == 0
	for i := 0; i < n; i++ {
		s := logSay{Kind: rapid.SampledFrom([]string{"good", "good", "keep", "bad", "short", "damaged", "foreign"}).Draw(t, "say"), At: rapid.IntRange(0, 5000).Draw(t, "at")}
		if good && s.Kind != "keep" {
			s.Kind = "good"
		}
		switch s.Kind {
		case "good", "bad", "short", "damaged":
			s.Es = genTop(t, &treeOpts{depth: 2, budget: 6, bare: true})
			oneConnPerTarget(s.Es)
			for _, e := range s.Es {
				if e.Qual {
					e.Path = e.Path[len(e.Path)-1:]
				}
			}
		}
		c.Say = append(c.Say, s)
	}
	return c
}

func runLogClient(c logClientCase, o *engine.Obs) error {
	p, err := peer.New()
	if err != nil {
		panic(err)
	}
	defer p.Close()
	client := socket.NewS101Client()
	rec := &recorder{}
	client.SetLogger(rec)
	if c.Nil {
		client.SetLogger(nil)
	}
	if e := client.Connect("127.0.0.1", p.Port); e != nil {
		return fmt.Errorf("connect: %s", emsg(e))
	}
	defer client.Disconnect()
	conn := p.Next()
	if conn == nil {
		return hung("client didn't connect")
	}
	a := newActor(conn, c.Wire, nil, nil)
	if c.Ask {
		if e := client.GetDirectory(nil, nil); e != nil {
			return fmt.Errorf("GetDirectory: %s", emsg(e))
		}
	}
	faults := 0
	for i, s := range c.Say {
		raw := func(f []byte) { _ = conn.Send(f, c.Wire.Chunks, c.Wire.Gaps) }
		switch s.Kind {
		case "good":
			a.say(c.Wire.Spell.Root(s.Es))
		case "bad":
			b := c.Wire.Spell.Root(s.Es)
			// a good message whose root, collection or first entry has another tag
			b[0] ^= 0x01
			a.say(b)
			faults++
		case "short":
			b := c.Wire.Spell.Root(s.Es)
			if len(b) < 5 {
				continue
			}
			a.say(b[:2+s.At%(len(b)-3)])
			faults++
		case "damaged":
			f := s101.EmberFrame(0xc0, c.Wire.Spell.Root(s.Es))
			at := 1 + s.At%(len(f)-2)
			if f[at] >= 0xf8 || f[at-1] == 0xfd || f[at]^0x15 >= 0xf8 {
				continue
			}
			f[at] ^= 0x15
			raw(f)
			faults++
		case "foreign":
			raw(s101.Frame([]byte{byte(1 + s.At%200), 0x0e, 0, 1, 0xc0, 1, 2, 0x1f, 2, 0x60, 0x80, 0, 0}))
			faults++
		case "keep":
			raw(s101.KeepAlive(s101.Resp))
		}
		o.Label("%s", s.Kind)
		if err := a.fence(); err != nil {
			return err
		}
		if n, _ := rec.problems(); n != faults {
			rec.mu.Lock()
			defer rec.mu.Unlock()
			return fmt.Errorf("after item %d (%s) the client has logged %d errors, %d of what it got so far was faulty: %q", i, s.Kind, n, faults, rec.errs)
		}
	}
	if e := client.Disconnect(); e != nil {
		return fmt.Errorf("disconnect: %s", emsg(e))
	}
	<-a.done
	if a.bad != nil {
		return a.bad
	}
	if n, _ := rec.problems(); n != faults {
		return fmt.Errorf("%d errors logged in the end, %d things were faulty", n, faults)
	}
	if rec.logged() == 0 {
		return fmt.Errorf("the client doesn't use the logger it was given")
	}
	return rec.wellFormed()
}

func init() {
	register(&engine.Property{
		ID:    "C29",
		Title: "Loggers see what happens and change nothing",
		Rule:  "something is logged; streams have several frames",
		Live:  true,
		Subs: []engine.Sub{
			engine.NewSub("trees", 3000, 90000, func(t *rapid.T) logTreeCase {
				c := logTreeCase{Nil: rapid.Bool().Draw(t, "nil"), Level: rapid.IntRange(0, 3).Draw(t, "level")}
				c.H = genHistory(t)
				n := rapid.IntRange(0, 3).Draw(t, "msgs")
				for i := 0; i < n; i++ {
					// any legal message, however it fits what came before
					node := legalNode(t, "message")
					if rapid.Bool().Draw(t, "spoilt") {
						mutateTree(t, node)
					}
					c.Wild = append(c.Wild, genStyle(t).Tree(node))
				}
				return c
			}, runLogTree),
			engine.NewSub("frames", 3000, 60000, func(t *rapid.T) noiseCase {
				c := noiseCase{Tail: genFramed(t, 1), Chunks: genChunks(t)}
				c.Tail.Keep = nil
				if rapid.Bool().Draw(t, "short") {
					c.Tail.P.N = rapid.IntRange(1, 60).Draw(t, "n")
					c.Tail.Sizes = []int{rapid.IntRange(1, 12).Draw(t, "size")}
				}
				c.B = Blob{Pat: rapid.SliceOfN(woundBytes, 1, 6).Draw(t, "noise"), N: rapid.IntRange(0, 8).Draw(t, "noiseN")}
				return c
			}, runLogFrames),
			engine.NewSubLimits("client", 800, 15000, clientLimits, genLogClient, runLogClient),
			engine.NewSubLimits("fetch", 300, 5000, clientLimits, genServe, func(c serveCase, o *engine.Obs) error {
				rec := &recorder{}
				if err := serveLogging(c, o, rec); err != nil {
					return fmt.Errorf("with a logger: %w", err)
				}
				if n, first := rec.problems(); n > 0 {
					return fmt.Errorf("%d errors are logged though nothing failed: %s", n, first)
				}
				return rec.wellFormed()
			}),
		},
	})
}
