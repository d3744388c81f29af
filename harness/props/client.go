package props

import (
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"github.com/dufourgilles/emberlib/socket"
	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/glow"
	"vpharness/peer"
	"vpharness/s101"
)

// clientLimits: cases on the network wait for things that must happen.
var clientLimits = engine.Limits{CPU: 120 * time.Second, Wall: 150 * time.Second, Idle: true}

// hung says that something that must happen didn't, and makes the search for
// a smaller case less patient.
func hung(format string, a ...any) error {
	err := fmt.Errorf("%s within %v", fmt.Sprintf(format, a...), peer.Patience)
	peer.Patience = 4 * time.Second
	return err
}

// soon waits until cond holds.
func soon(cond func() bool) bool {
	end := time.Now().Add(peer.Patience)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if i < 20 {
			time.Sleep(100 * time.Microsecond)
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

// wire says how a provider's messages reach the client.
type wire struct {
	Spell  glow.Style
	Sizes  []int // payload bytes per frame
	Chunks []int // bytes per write
	Gaps   []int // microseconds between writes
	Keep   []int // keep-alive requests before the frames: 1 request, 2 response
}

func genWire(t *rapid.T) wire {
	w := wire{Spell: genStyle(t), Chunks: genChunks(t)}
	if rapid.Bool().Draw(t, "smallFrames") {
		w.Sizes = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(100, 1500)), 1, 4).Draw(t, "frameSizes")
	}
	if w.Chunks != nil && rapid.IntRange(0, 2).Draw(t, "paused") == 0 {
		w.Gaps = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 10, 200, 1500}), 1, 8).Draw(t, "gaps")
	}
	w.Keep = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2}), 0, 5).Draw(t, "keep")
	return w
}

// stream frames a message; it also says how many keep-alive requests it holds.
func (w wire) stream(payload []byte, n *int) (out []byte, reqs int) {
	sizes := w.Sizes
	if len(sizes) > 0 && len(payload)/max(1, sizes[len(sizes)-1]) > 200 {
		sizes = append(append([]int{}, sizes...), 500)
	}
	for _, f := range s101.Split(payload, sizes) {
		if len(w.Keep) > 0 {
			switch w.Keep[*n%len(w.Keep)] {
			case 1:
				out = append(out, s101.KeepAlive(s101.Req)...)
				reqs++
			case 2:
				out = append(out, s101.KeepAlive(s101.Resp)...)
			}
			*n++
		}
		out = append(out, f...)
	}
	return out, reqs
}

// ---- C22: a provider serves a tree

// Reply styles of a provider.
const (
	replySelf     = iota // qualified element with its children nested
	replyNested          // the way from the root, then the element with its children
	replySpread          // the qualified element, then its children qualified
	replyChildren        // only the children, qualified
	replyDeep            // the qualified element with everything below
	replyStyles
)

type serveCase struct {
	Tree   []*glow.Elem // plain, numbers unique among siblings
	Wire   wire
	Styles []int
	Hold   int   // replies held back until more requests come
	Pick   []int // which of the held ones goes next
	More   []*glow.Elem
	Again  bool // fetch a second time, with More added to the tree
	Limit  int  // timeout in ms, 0 for none
}

func genServe(t *rapid.T) serveCase {
	o := &treeOpts{depth: rapid.IntRange(0, 5).Draw(t, "depth"), budget: rapid.IntRange(1, 30).Draw(t, "budget"), bare: true, noCmd: true}
	c := serveCase{Wire: genWire(t)}
	for {
		c.Tree = genKids(t, o, o.depth)
		if len(c.Tree) > 0 || rapid.IntRange(0, 9).Draw(t, "emptyTree") == 0 {
			break
		}
		o.budget = 5
	}
	if rapid.IntRange(0, 60).Draw(t, "crowd") == 37 {
		// more children than requests fit into the client's queue
		n := rapid.IntRange(200, 600).Draw(t, "crowdSize")
		e := &glow.Elem{Kind: glow.Node, Num: 77}
		for i := 0; i < n; i++ {
			e.Kids = append(e.Kids, &glow.Elem{Kind: glow.Param, Num: int32(i)})
		}
		c.Tree = append(c.Tree, e)
		seen := map[int32]bool{}
		kept := c.Tree[:0]
		for i := len(c.Tree) - 1; i >= 0; i-- {
			if !seen[c.Tree[i].Num] {
				seen[c.Tree[i].Num] = true
				kept = append(kept, c.Tree[i])
			}
		}
		c.Tree = append([]*glow.Elem{}, e)
		for _, k := range kept {
			if k != e && k.Num != 77 {
				c.Tree = append(c.Tree, k)
			}
		}
	}
	if rapid.IntRange(0, 60).Draw(t, "rootCrowd") == 29 {
		// a wide root
		n, from := rapid.IntRange(30, 400).Draw(t, "rootCrowdSize"), rapid.Int32Range(0, 1000).Draw(t, "rootCrowdFrom")
		used := map[int32]bool{}
		for _, e := range c.Tree {
			used[e.Num] = true
		}
		for i := from; i < from+int32(n); i++ {
			if used[i] {
				continue
			}
			e := &glow.Elem{Kind: glow.Node, Num: i}
			if i%7 == from%7 {
				e.Kids = []*glow.Elem{{Kind: glow.Param, Num: i + 1}}
			}
			c.Tree = append(c.Tree, e)
		}
	}
	if len(c.Tree) > 0 && rapid.IntRange(0, 40).Draw(t, "deepTree") == 17 {
		// a tree that is deep rather than wide
		e, num := c.Tree[0], c.Tree[0].Num
		for n := rapid.IntRange(6, 45).Draw(t, "levels"); n > 0; n-- {
			up := &glow.Elem{Kind: glow.Node, Num: rapid.SampledFrom([]int32{0, 1, 2, 127, 128, 300}).Draw(t, "levelNum")}
			if n == 1 {
				up.Num = num
			}
			if e.Num != 7 && rapid.Bool().Draw(t, "sibling") {
				up.Kids = append(up.Kids, &glow.Elem{Kind: glow.Param, Num: 7})
			}
			up.Kids = append(up.Kids, e)
			e = up
		}
		c.Tree[0] = e
	}
	oneConnPerTarget(c.Tree)
	c.Styles = rapid.SliceOfN(rapid.IntRange(0, replyStyles-1), 1, 6).Draw(t, "styles")
	if rapid.Bool().Draw(t, "holds") {
		c.Hold = rapid.IntRange(0, 8).Draw(t, "hold")
		c.Pick = rapid.SliceOfN(rapid.IntRange(0, 8), 0, 6).Draw(t, "pick")
	}
	if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
		c.Again = true
		o.budget = 6
		c.More = genKids(t, o, 2)
		used := map[int32]bool{}
		for _, e := range c.Tree {
			used[e.Num] = true
		}
		kept := c.More[:0]
		for _, e := range c.More {
			if !used[e.Num] {
				kept = append(kept, e)
			}
		}
		c.More = kept
		oneConnPerTarget(c.More)
	}
	if rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
		c.Limit = 60000
	}
	return c
}

func oneConnPerTarget(es []*glow.Elem) {
	for _, e := range es {
		e.Walk(func(e *glow.Elem, _ int) {
			seen := map[int32]bool{}
			var kept []glow.Conn
			for _, k := range e.Conns {
				if !seen[k.Target] {
					seen[k.Target] = true
					kept = append(kept, k)
				}
			}
			e.Conns = kept
		})
	}
}

func (c *serveCase) deep() bool {
	for _, s := range c.Styles {
		if s == replyDeep {
			return true
		}
	}
	return false
}

// provider answers directory requests from a tree.
type provider struct {
	c      *serveCase
	tree   []*glow.Elem
	conn   *peer.Conn
	mu     sync.Mutex
	asked  []string // paths in order of arrival
	nth    int
	frames int
	keeps  int // keep-alive requests sent
	resps  int // responses received
	bad    error
	// requests for these aren't answered
	mute    map[string]bool
	skipped [][]int32
	sent    int // answers
}

func locate(es []*glow.Elem, path []int32) (e *glow.Elem, way []*glow.Elem) {
	for _, p := range path {
		e = nil
		for _, x := range es {
			if x.Num == p {
				e = x
			}
		}
		if e == nil {
			return nil, nil
		}
		way = append(way, e)
		es = e.Kids
	}
	return e, way
}

// lone is an element without its children.
func lone(e *glow.Elem) *glow.Elem {
	x := *e
	x.Kids = nil
	return &x
}

// flat is an element with its children, which have none.
func flat(e *glow.Elem) *glow.Elem {
	x := lone(e)
	for _, k := range e.Kids {
		x.Kids = append(x.Kids, lone(k))
	}
	return x
}

func qualified(e *glow.Elem, path []int32) *glow.Elem {
	x := *e
	x.Qual, x.Path, x.Num = true, append([]int32{}, path...), 0
	return &x
}

func (p *provider) answer(path []int32) []*glow.Elem {
	style := p.c.Styles[p.nth%len(p.c.Styles)]
	p.nth++
	if len(path) == 0 {
		var out []*glow.Elem
		for _, e := range p.tree {
			switch style {
			case replyDeep:
				out = append(out, e)
			case replySpread, replyChildren:
				out = append(out, qualified(lone(e), []int32{e.Num}))
			default:
				out = append(out, lone(e))
			}
		}
		return out
	}
	e, way := locate(p.tree, path)
	if e == nil {
		return nil
	}
	switch style {
	case replyNested:
		x := flat(e)
		for i := len(way) - 2; i >= 0; i-- {
			x = &glow.Elem{Kind: way[i].Kind, Num: way[i].Num, Kids: []*glow.Elem{x}}
		}
		return []*glow.Elem{x}
	case replySpread, replyChildren:
		var out []*glow.Elem
		// children that are known already don't tell that e has answered
		if style == replySpread || len(e.Kids) == 0 || p.c.Again || p.c.deep() {
			out = append(out, qualified(lone(e), path))
		}
		for _, k := range e.Kids {
			out = append(out, qualified(lone(k), append(append([]int32{}, path...), k.Num)))
		}
		return out
	case replyDeep:
		return []*glow.Elem{qualified(e, path)}
	}
	return []*glow.Elem{qualified(flat(e), path)}
}

func (p *provider) fail(format string, a ...any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.bad == nil {
		p.bad = fmt.Errorf(format, a...)
	}
}

func (p *provider) broken() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.bad
}

// serve answers until the connection ends.
func (p *provider) serve(done chan<- struct{}) {
	defer close(done)
	var held [][]int32
	release := func() {
		k := 0
		if len(p.c.Pick) > 0 {
			k = p.c.Pick[p.nth%len(p.c.Pick)] % len(held)
		}
		path := held[k]
		held = append(held[:k], held[k+1:]...)
		p.mu.Lock()
		es := p.answer(path)
		p.mu.Unlock()
		if es == nil && len(path) > 0 {
			p.fail("client asks for %v, which the provider doesn't have", path)
			return
		}
		p.mu.Lock()
		b, reqs := p.c.Wire.stream(p.c.Wire.Spell.Root(es), &p.frames)
		p.keeps += reqs
		p.mu.Unlock()
		_ = p.conn.Send(b, p.c.Wire.Chunks, p.c.Wire.Gaps)
		p.mu.Lock()
		p.sent++
		p.mu.Unlock()
	}
	for {
		var idle <-chan time.Time
		if len(held) > 0 {
			idle = time.After(3 * time.Millisecond)
		}
		select {
		case e, ok := <-p.conn.Events():
			if !ok {
				return
			}
			switch e.Kind {
			case "message":
				path, kind, _, err := request(e.Data)
				if err != nil {
					p.fail("client sends %s: %v", hexs(e.Data), err)
					continue
				}
				p.mu.Lock()
				p.asked = append(p.asked, pathKey(path))
				if x, _ := locate(p.tree, path); x != nil && x.Kind != kind && p.bad == nil {
					p.bad = fmt.Errorf("client asks for %v as a %s, it is a %s", path, kind, x.Kind)
				}
				mute := p.mute[pathKey(path)]
				if mute {
					p.skipped = append(p.skipped, path)
				}
				p.mu.Unlock()
				if mute {
					continue
				}
				held = append(held, path)
				for len(held) > p.c.Hold {
					release()
				}
			case "resp":
				p.mu.Lock()
				p.resps++
				p.mu.Unlock()
			case "cut":
			default:
				p.fail("client sends %s %s", e.Kind, e.Why)
			}
		case <-idle:
			release()
		}
	}
}

// treeEar waits for a whole tree.
type treeEar struct {
	mu    sync.Mutex
	calls int
	err   error
	check func(*embertree.RootElement) error
}

func (l *treeEar) Receive(x interface{}, e errors.Error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.calls++
	if l.calls > 1 {
		l.err = fmt.Errorf("listener called %d times", l.calls)
		return
	}
	if e != nil {
		l.err = fmt.Errorf("listener gets the error %s", emsg(e))
		return
	}
	tree, ok := x.(*embertree.RootElement)
	if !ok || tree == nil {
		l.err = fmt.Errorf("listener gets %T", x)
		return
	}
	l.err = l.check(tree)
}

func (l *treeEar) state() (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.calls, l.err
}

func runServe(c serveCase, o *engine.Obs) error { return serveLogging(c, o, nil) }

func serveLogging(c serveCase, o *engine.Obs, log logger.Logger) error {
	p, err := peer.New()
	if err != nil {
		panic(err)
	}
	defer p.Close()
	client := socket.NewS101Client()
	if os.Getenv("VP_DEBUG") != "" {
		client.SetLogger(logger.NewConsoleLogger(logger.ErrorLevel))
	}
	client.SetLogger(log)
	client.SetTimeout(c.Limit)
	if err := client.Connect("127.0.0.1", p.Port); err != nil {
		return fmt.Errorf("connect: %s", emsg(err))
	}
	defer client.Disconnect()
	conn := p.Next()
	if conn == nil {
		return hung("client didn't connect")
	}
	prov := &provider{c: &c, tree: c.Tree, conn: conn}
	done := make(chan struct{})
	go prov.serve(done)

	rounds := 1
	if c.Again {
		rounds = 2
	}
	want := map[string]int{}
	for round := 0; round < rounds; round++ {
		if round == 1 {
			prov.mu.Lock()
			prov.tree = append(append([]*glow.Elem{}, c.Tree...), c.More...)
			prov.mu.Unlock()
		}
		model := newM("", nil, 0)
		model.announce(prov.tree, nil)
		ear := &treeEar{check: model.checkRoot}
		if err := client.GetTree(ear); err != nil {
			return fmt.Errorf("GetTree: %s", emsg(err))
		}
		if !soon(func() bool { n, _ := ear.state(); return n > 0 || prov.broken() != nil }) {
			prov.mu.Lock()
			defer prov.mu.Unlock()
			return hung("no tree after %d requests (%d elements)", len(prov.asked), len(want))
		}
		if err := prov.broken(); err != nil {
			return err
		}
		if _, err := ear.state(); err != nil {
			return err
		}
		n := 0
		model.walk(func(m *mnode) { want[pathKey(m.path)]++; n++ })
		if round == 0 && n > 2 {
			o.Label("several elements")
		} else if n <= 2 {
			o.Trivial()
		}
		if n > 200 {
			o.Label("crowd")
		}
		time.Sleep(2 * time.Millisecond)
		if _, err := ear.state(); err != nil {
			return err
		}
	}
	// every keep-alive answered, and nothing more
	if !soon(func() bool { prov.mu.Lock(); defer prov.mu.Unlock(); return prov.resps >= prov.keeps }) {
		return hung("keep-alive requests weren't answered")
	}
	if err := client.Disconnect(); err != nil {
		return fmt.Errorf("disconnect: %s", emsg(err))
	}
	<-done
	if prov.bad != nil {
		return prov.bad
	}
	if prov.resps != prov.keeps {
		return fmt.Errorf("%d keep-alive responses to %d requests", prov.resps, prov.keeps)
	}
	if prov.keeps > 0 {
		o.Label("keep-alives")
	}
	if c.Hold > 0 && len(c.Pick) > 0 {
		o.Label("replies out of order")
	}
	if c.Again {
		o.Label("twice")
	}
	got := map[string]int{}
	for _, a := range prov.asked {
		got[a]++
	}
	for k, n := range want {
		if got[k] != n {
			return fmt.Errorf("directory of %s requested %d times, want %d", k, got[k], n)
		}
	}
	for k := range got {
		if want[k] == 0 {
			return fmt.Errorf("directory of %s requested", k)
		}
	}
	return nil
}

var _ = asn1.Application

func init() {
	register(&engine.Property{
		ID:    "C22",
		Title: "A client fetches a provider's whole tree exactly once",
		Rule:  "the tree has two elements or more",
		Live:  true,
		Subs:  []engine.Sub{engine.NewSubLimits("trees", 2400, 60000, clientLimits, genServe, runServe)},
	})
}
