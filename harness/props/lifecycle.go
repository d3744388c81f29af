package props

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/logger"
	"github.com/dufourgilles/emberlib/socket"
	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/glow"
	"vpharness/peer"
)

// ---- C25: connecting, disconnecting, hanging up

// Operations.
const (
	lifeConnect    = iota // to the provider
	lifeRefused           // connect where nobody listens
	lifeDisconnect        // N: wait until all is quiet first
	lifeAsk               // N requests for element El
	lifeHangUp            // the provider does, in way N
	lifeTree              // fetch the tree
	lifeCallback          // a listener disconnects (N=0), reconnects (1) or connects again (2)
	lifePause             // N µs
	lifeSettle            // until all is quiet
	lifeOps
)

type lifeOp struct {
	Kind int
	N    int
	El   int // -1 the root
}

type lifeCase struct {
	Tree  []*glow.Elem
	Wire  wire
	Early bool // the first request comes before the first connection
	Ops   []lifeOp
}

func genLife(t *rapid.T) lifeCase {
	c := lifeCase{Tree: genSmallTree(t, 6), Wire: genWire(t), Early: rapid.Bool().Draw(t, "early")}
	c.Wire.Gaps = nil
	n := countElems(c.Tree)
	count := rapid.IntRange(1, 14).Draw(t, "ops")
	kinds := []int{lifeConnect, lifeConnect, lifeConnect, lifeRefused, lifeDisconnect, lifeDisconnect, lifeDisconnect, lifeAsk, lifeAsk, lifeAsk, lifeHangUp, lifeHangUp, lifeTree, lifeCallback, lifePause, lifeSettle}
	for i := 0; i < count; i++ {
		op := lifeOp{Kind: rapid.SampledFrom(kinds).Draw(t, "op"), El: notProbe(rapid.IntRange(-1, n-1).Draw(t, "el"))}
		switch op.Kind {
		case lifeDisconnect:
			op.N = rapid.IntRange(0, 1).Draw(t, "quiet")
		case lifeAsk:
			op.N = rapid.SampledFrom([]int{1, 1, 2, 3, 8, 20}).Draw(t, "requests")
		case lifeHangUp:
			op.N = rapid.IntRange(0, 4).Draw(t, "way")
		case lifeCallback:
			op.N = rapid.IntRange(0, 2).Draw(t, "what")
		case lifePause:
			op.N = rapid.SampledFrom([]int{1, 50, 500, 1500, 4000}).Draw(t, "pause")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// notProbe keeps the probe for requests that mark the end of others.
func notProbe(el int) int {
	if el == 0 {
		return -1
	}
	return el
}

// issue is a request that was made.
type issue struct {
	key      string
	ear      *outcomes
	certain  bool // it must arrive
	answered bool // its listener must be called
}

// possible tells whether what arrived is what was issued, less some of what
// may have been lost.
func possible(issued []*issue, got []arrival) bool {
	// ways[j]: the first j arrivals are accounted for
	ways := make([]bool, len(got)+1)
	ways[0] = true
	for _, i := range issued {
		next := make([]bool, len(got)+1)
		for j := range ways {
			if !ways[j] {
				continue
			}
			if !i.certain {
				next[j] = true
			}
			if j < len(got) && got[j].key == i.key {
				next[j+1] = true
			}
		}
		ways = next
	}
	return ways[len(got)]
}

type life struct {
	c      *lifeCase
	p      *peer.Peer
	client *socket.S101Client
	root   *embertree.RootElement
	els    []*embertree.Element
	paths  [][]int32
	state  int // 0 disconnected, 1 connected, 2 the provider hung up
	actors []*actor
	seen   int // arrivals that were accounted for
	issued []*issue
}

func (l *life) current() *actor { return l.actors[len(l.actors)-1] }

// accepted makes an actor of the client's next connection.
func (l *life) accepted() error {
	conn := l.p.Next()
	if conn == nil {
		return hung("connection isn't seen by the provider")
	}
	l.actors = append(l.actors, newEcho(conn, l.c.Wire, l.c.Tree))
	return nil
}

func (l *life) arrivals() (all []arrival) {
	for _, a := range l.actors {
		a.mu.Lock()
		all = append(all, a.asked...)
		a.mu.Unlock()
	}
	return all[l.seen:]
}

func (l *life) broken() error {
	for _, a := range l.actors {
		if err := a.broken(); err != nil {
			return err
		}
	}
	return nil
}

// ended waits for connections that are no more.
func (l *life) ended(as []*actor) error {
	for _, a := range as {
		select {
		case <-a.done:
		case <-time.After(peer.Patience):
			return hung("the provider's connection isn't closed")
		}
	}
	return nil
}

func (l *life) keys() (out []string) {
	for _, i := range l.issued {
		k := i.key
		if !i.certain {
			k += "?"
		}
		out = append(out, k)
	}
	return out
}

// ask makes a request; its listener takes itself away when called.
func (l *life) ask(el int, then func()) error {
	var node *embertree.Element
	i := &issue{key: pathKey(nil), ear: &outcomes{}, certain: l.state != 2, answered: l.state != 2}
	if el >= 0 {
		node, i.key = l.els[el], pathKey(l.paths[el])
	}
	i.ear.then = func(x interface{}) {
		if node != nil {
			node.RemoveListener(i.ear)
		} else if root, ok := x.(*embertree.RootElement); ok {
			root.RemoveListener(i.ear)
		}
		if then != nil {
			then()
		}
	}
	if e := l.client.GetDirectory(node, i.ear); e != nil {
		return fmt.Errorf("GetDirectory: %s", emsg(e))
	}
	l.issued = append(l.issued, i)
	return nil
}

// doubt says that connections end: what hasn't arrived may be lost, and
// answers, too.
func (l *life) doubt() {
	for _, i := range l.issued {
		i.certain = false
		if i.ear.n() == 0 {
			i.answered = false
		}
	}
}

// settle waits until all that was asked for while there is a connection
// arrived and was answered.
func (l *life) settle() error {
	if l.state != 1 {
		return nil
	}
	if err := l.ended(l.actors[:len(l.actors)-1]); err != nil {
		return err
	}
	// the last one in the queue
	if err := l.ask(0, nil); err != nil {
		return err
	}
	if !soon(func() bool { return possible(l.issued, l.arrivals()) || l.broken() != nil }) {
		return hung("requests %v, arrived %v", l.keys(), l.arrivals())
	}
	if err := l.broken(); err != nil {
		return err
	}
	if !soon(func() bool {
		for _, i := range l.issued {
			if i.answered && i.ear.n() == 0 {
				return false
			}
		}
		return true
	}) {
		return hung("listener of an answered request wasn't called; requests %v, arrived %v", l.keys(), l.arrivals())
	}
	if err := l.current().fence(); err != nil {
		return err
	}
	got := l.arrivals()
	if !possible(l.issued, got) {
		return fmt.Errorf("requests %v, arrived %v", l.keys(), got)
	}
	for _, i := range l.issued {
		calls := i.ear.all()
		if len(calls) > 1 {
			return fmt.Errorf("listener of one request for %s called %d times", i.key, len(calls))
		}
		if len(calls) == 1 && calls[0].bad {
			return fmt.Errorf("listener of a request for %s gets the error %s", i.key, calls[0].err)
		}
	}
	l.seen += len(got)
	l.issued = nil
	return nil
}

func (l *life) checkState() error {
	switch c := l.client.IsConnected(); {
	case l.state == 0 && c:
		return fmt.Errorf("IsConnected says true without a connection")
	case l.state == 1 && !c:
		return fmt.Errorf("IsConnected says false with a connection")
	}
	return nil
}

func (l *life) connect() error {
	e := l.client.Connect("127.0.0.1", l.p.Port)
	switch {
	case l.state == 0 && e != nil:
		return fmt.Errorf("connect: %s", emsg(e))
	case l.state == 1 && e == nil:
		return fmt.Errorf("connecting twice succeeds")
	case e != nil:
		return nil
	}
	l.state = 1
	return l.accepted()
}

func newClient() *socket.S101Client {
	client := socket.NewS101Client()
	if os.Getenv("VP_DEBUG") != "" {
		client.SetLogger(logger.NewConsoleLogger(logger.ErrorLevel))
	}
	return client
}

// learn finds the provider's elements in what the root's answer left.
func (l *life) learn(first *issue) error {
	if got := first.ear.all()[0]; got.bad {
		return fmt.Errorf("listener for the root gets the error %s", got.err)
	}
	root, ok := first.ear.all()[0].node.(*embertree.RootElement)
	if !ok {
		return fmt.Errorf("listener for the root gets %T", first.ear.all()[0].node)
	}
	l.root = root
	var visit func(es []*glow.Elem, path []int32) error
	visit = func(es []*glow.Elem, path []int32) error {
		for _, e := range es {
			p := append(append([]int32{}, path...), e.Num)
			_, el := root.GetElementByPath(p)
			if el == nil {
				return fmt.Errorf("element %v isn't known after the root's answer", p)
			}
			l.els, l.paths = append(l.els, el), append(l.paths, p)
			if err := visit(e.Kids, p); err != nil {
				return err
			}
		}
		return nil
	}
	return visit(l.c.Tree, nil)
}

// know connects and asks for the root.
func (l *life) know() error {
	if err := l.connect(); err != nil {
		return err
	}
	if err := l.ask(-1, nil); err != nil {
		return err
	}
	first := l.issued[0]
	if !soon(func() bool { return first.ear.n() > 0 || l.broken() != nil }) {
		return hung("first request isn't answered")
	}
	if err := l.broken(); err != nil {
		return err
	}
	if err := l.learn(first); err != nil {
		return err
	}
	return l.settle()
}

// leftovers is what clients that are all disconnected still run.
func leftovers() error {
	buf := make([]byte, 1<<20)
	var left string
	if soon(func() bool {
		left = ""
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			if strings.Contains(g, "github.com/dufourgilles/emberlib/socket") {
				// the function it waits in or came from
				left = g[strings.Index(g, "github.com/dufourgilles/emberlib/socket"):]
				left = strings.SplitN(strings.SplitN(left, "\n", 2)[0], "(0x", 2)[0]
			}
		}
		return left == ""
	}) {
		return nil
	}
	return hung("disconnected, the client still runs %s", left)
}

func runLife(c lifeCase, o *engine.Obs) error {
	p, err := peer.New()
	if err != nil {
		panic(err)
	}
	defer p.Close()
	l := &life{c: &c, p: p, client: newClient()}
	defer l.client.Disconnect()
	if err := l.checkState(); err != nil {
		return err
	}
	if e := l.client.Disconnect(); e == nil {
		return fmt.Errorf("disconnecting a client that never was connected succeeds")
	}
	if !c.Early {
		if err := l.connect(); err != nil {
			return err
		}
	}
	if err := l.ask(-1, nil); err != nil {
		return err
	}
	first := l.issued[0]
	if c.Early {
		if err := l.connect(); err != nil {
			return err
		}
	}
	if !soon(func() bool { return first.ear.n() > 0 || l.broken() != nil }) {
		return hung("first request isn't answered")
	}
	if err := l.broken(); err != nil {
		return err
	}
	if err := l.learn(first); err != nil {
		return err
	}
	if err := l.settle(); err != nil {
		return err
	}
	hangUps, reconnects := 0, 0
	for _, op := range c.Ops {
		if l.state == 2 && !l.client.IsConnected() {
			l.state = 0
		}
		switch op.Kind {
		case lifeConnect:
			was := l.state
			if err := l.connect(); err != nil {
				return err
			}
			if was != 1 && l.state == 1 {
				reconnects++
			}
		case lifeRefused:
			port, release, err := peer.ClosedPort()
			if err != nil {
				panic(err)
			}
			e := l.client.Connect("127.0.0.1", port)
			release()
			if e == nil {
				return fmt.Errorf("connecting where nobody listens succeeds")
			}
		case lifeDisconnect:
			if op.N == 1 {
				if err := l.settle(); err != nil {
					return err
				}
			}
			if l.state != 0 && len(l.issued) > 0 {
				l.doubt()
			}
			e := l.client.Disconnect()
			switch {
			case l.state == 0 && e == nil:
				return fmt.Errorf("disconnecting twice succeeds")
			case l.state == 1 && e != nil:
				return fmt.Errorf("disconnect: %s", emsg(e))
			}
			if l.state == 1 {
				if err := l.ended(l.actors); err != nil {
					return err
				}
			}
			l.state = 0
		case lifeAsk:
			for k := 0; k < op.N; k++ {
				if err := l.ask(op.El, nil); err != nil {
					return err
				}
			}
			if l.state == 0 {
				o.Label("asks while disconnected")
			}
		case lifeHangUp:
			if l.state != 1 {
				continue
			}
			hangUps++
			a := l.current()
			l.doubt()
			switch op.N {
			case 0:
				a.conn.Close()
			case 1:
				a.conn.Reset()
			case 2, 3:
				// within a message
				b, _ := wire{Sizes: []int{3}}.stream(a.rootReply(), new(int))
				cut := len(b) / 2
				if op.N == 3 {
					cut = 15
				}
				_ = a.conn.Send(b[:min(cut, len(b)-1)], nil, nil)
				a.conn.Close()
			case 4:
				a.conn.HalfClose()
			}
			l.state = 2
		case lifeTree:
			if l.state != 1 {
				continue
			}
			if err := l.settle(); err != nil {
				return err
			}
			ear := &outcomes{}
			if e := l.client.GetTree(ear); e != nil {
				return fmt.Errorf("GetTree: %s", emsg(e))
			}
			if !soon(func() bool { return ear.n() > 0 || l.broken() != nil }) {
				return hung("no tree")
			}
			if err := l.current().fence(); err != nil {
				return err
			}
			if got := ear.all(); len(got) != 1 || got[0].bad {
				return fmt.Errorf("tree listener: %+v", got)
			}
			got := map[string]int{}
			all := l.arrivals()
			for _, x := range all {
				got[x.key]++
			}
			for _, p := range append([][]int32{nil}, l.paths...) {
				if got[pathKey(p)] != 1 {
					return fmt.Errorf("directory of %v requested %d times for the tree", p, got[pathKey(p)])
				}
			}
			if len(all) != len(l.paths)+1 {
				return fmt.Errorf("%d requests for a tree of %d elements", len(all), len(l.paths))
			}
			l.seen += len(all)
			o.Label("tree")
		case lifeCallback:
			if l.state != 1 {
				continue
			}
			if err := l.settle(); err != nil {
				return err
			}
			var mu sync.Mutex
			var bad error
			called := false
			err := l.ask(op.El, func() {
				var err error
				e := l.client.Connect("127.0.0.1", p.Port)
				if e == nil {
					err = fmt.Errorf("connecting twice, in a callback, succeeds")
				}
				if op.N < 2 && err == nil {
					if e := l.client.Disconnect(); e != nil {
						err = fmt.Errorf("disconnect in a callback: %s", emsg(e))
					} else if l.client.IsConnected() {
						err = fmt.Errorf("IsConnected says true in a callback after disconnecting")
					}
				}
				if op.N == 1 && err == nil {
					if e := l.client.Connect("127.0.0.1", p.Port); e != nil {
						err = fmt.Errorf("connect in a callback: %s", emsg(e))
					}
				}
				mu.Lock()
				bad, called = err, true
				mu.Unlock()
			})
			if err != nil {
				return err
			}
			if !soon(func() bool { mu.Lock(); defer mu.Unlock(); return called }) {
				return hung("listener that was to disconnect isn't called or doesn't return")
			}
			mu.Lock()
			err = bad
			mu.Unlock()
			if err != nil {
				return err
			}
			if op.N < 2 {
				if err := l.ended(l.actors); err != nil {
					return err
				}
				l.state = 0
			}
			if op.N == 1 {
				l.state = 1
				if err := l.accepted(); err != nil {
					return err
				}
				reconnects++
			}
			o.Label("in a callback")
		case lifePause:
			time.Sleep(time.Duration(op.N) * time.Microsecond)
		case lifeSettle:
			if l.state == 2 {
				if !soon(func() bool { return !l.client.IsConnected() }) {
					return hung("IsConnected says true after the provider hung up")
				}
				l.state = 0
			}
			if err := l.settle(); err != nil {
				return err
			}
		}
		if err := l.checkState(); err != nil {
			return fmt.Errorf("after operation %+v: %v", op, err)
		}
		if err := l.broken(); err != nil {
			return err
		}
	}
	if l.state == 2 {
		if !soon(func() bool { return !l.client.IsConnected() }) {
			return hung("IsConnected says true after the provider hung up")
		}
		l.state = 0
	}
	if l.state == 0 {
		if err := l.connect(); err != nil {
			return err
		}
		reconnects++
	}
	if err := l.settle(); err != nil {
		return err
	}
	if e := l.client.Disconnect(); e != nil {
		return fmt.Errorf("disconnect: %s", emsg(e))
	}
	if err := l.ended(l.actors); err != nil {
		return err
	}
	if n := len(l.arrivals()); n > 0 {
		return fmt.Errorf("%v arrived more than once", l.arrivals())
	}
	if err := leftovers(); err != nil {
		return err
	}
	if hangUps > 0 {
		o.Label("hang-ups")
	}
	if reconnects == 0 {
		o.Trivial()
	}
	return nil
}

// ---- C25: life-cycle operations from several goroutines

type stormOp struct {
	Kind int // 0 connect, 1 disconnect, 2 state, 3 ask, 4 pause
	N    int
}

type stormCase struct {
	Wire    wire
	Tree    []*glow.Elem
	Plans   [][]stormOp
	Timeout int
}

func genStorm(t *rapid.T) stormCase {
	c := stormCase{Wire: genWire(t), Tree: genSmallTree(t, 4), Timeout: rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "timeout")}
	c.Wire.Gaps = nil
	n := countElems(c.Tree)
	for g := rapid.IntRange(2, 4).Draw(t, "goroutines"); g > 0; g-- {
		var plan []stormOp
		for k := rapid.IntRange(1, 12).Draw(t, "ops"); k > 0; k-- {
			op := stormOp{Kind: rapid.IntRange(0, 4).Draw(t, "op")}
			switch op.Kind {
			case 3:
				op.N = notProbe(rapid.IntRange(-1, n-1).Draw(t, "el"))
			case 4:
				op.N = rapid.SampledFrom([]int{1, 20, 200, 1200}).Draw(t, "pause")
			}
			plan = append(plan, op)
		}
		c.Plans = append(c.Plans, plan)
	}
	return c
}

func runStorm(c stormCase, o *engine.Obs) error {
	lc := lifeCase{Tree: c.Tree, Wire: c.Wire}
	p, err := peer.New()
	if err != nil {
		panic(err)
	}
	defer p.Close()
	l := &life{c: &lc, p: p, client: newClient()}
	defer l.client.Disconnect()
	if err := l.know(); err != nil {
		return err
	}
	l.client.SetTimeout(c.Timeout)
	var mu sync.Mutex
	connects, disconnects, asks := 0, 0, map[string]int{}
	var bad error
	note := func(f func()) { mu.Lock(); defer mu.Unlock(); f() }
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, plan := range c.Plans {
		plan := plan
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, op := range plan {
				switch op.Kind {
				case 0:
					if e := l.client.Connect("127.0.0.1", p.Port); e == nil {
						note(func() { connects++ })
					}
				case 1:
					if e := l.client.Disconnect(); e == nil {
						note(func() { disconnects++ })
					}
				case 2:
					l.client.IsConnected()
				case 3:
					var el *embertree.Element
					key := pathKey(nil)
					if op.N >= 0 {
						el, key = l.els[op.N], pathKey(l.paths[op.N])
					}
					ear := &outcomes{}
					ear.then = func(x interface{}) {
						if el != nil {
							el.RemoveListener(ear)
						} else if root, ok := x.(*embertree.RootElement); ok {
							root.RemoveListener(ear)
						}
					}
					e := l.client.GetDirectory(el, ear)
					note(func() {
						if e != nil {
							bad = fmt.Errorf("GetDirectory: %s", emsg(e))
						}
						asks[key]++
					})
				case 4:
					time.Sleep(time.Duration(op.N) * time.Microsecond)
				}
			}
		}()
	}
	// the provider answers on every connection
	stop := make(chan struct{})
	collected := make(chan struct{})
	var am sync.Mutex
	go func() {
		defer close(collected)
		for {
			select {
			case conn := <-p.Conns:
				am.Lock()
				l.actors = append(l.actors, newEcho(conn, c.Wire, c.Tree))
				am.Unlock()
			case <-stop:
				return
			}
		}
	}()
	close(start)
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(peer.Patience):
		close(stop)
		return hung("operations from several goroutines don't return")
	}
	ok := soon(func() bool { am.Lock(); defer am.Unlock(); return len(l.actors) == connects+1 })
	close(stop)
	<-collected
	if !ok {
		return fmt.Errorf("%d successful connects make %d connections", connects+1, len(l.actors))
	}
	if bad != nil {
		return bad
	}
	open := 1 + connects - disconnects
	if open != 0 && open != 1 {
		return fmt.Errorf("%d successful connects and %d disconnects", connects+1, disconnects)
	}
	if l.client.IsConnected() != (open == 1) {
		return fmt.Errorf("IsConnected says %v after %d connects and %d disconnects", l.client.IsConnected(), connects+1, disconnects)
	}
	if open == 1 {
		if e := l.client.Disconnect(); e != nil {
			return fmt.Errorf("disconnect: %s", emsg(e))
		}
	}
	if err := l.ended(l.actors); err != nil {
		return err
	}
	l.state = 0
	l.client.SetTimeout(0)
	if err := l.connect(); err != nil {
		return err
	}
	// what is left in the queue, then a last request
	last := &outcomes{}
	if e := l.client.GetDirectory(l.els[0], last); e != nil {
		return fmt.Errorf("GetDirectory at last: %s", emsg(e))
	}
	asks[pathKey(l.paths[0])]++
	if !soon(func() bool {
		if last.n() == 0 || l.current().broken() != nil {
			return l.current().broken() != nil
		}
		n := l.arrivals()
		return len(n) > 0 && n[len(n)-1].key == pathKey(l.paths[0])
	}) {
		return hung("the client doesn't work any more")
	}
	if err := l.current().fence(); err != nil {
		return err
	}
	if err := l.broken(); err != nil {
		return err
	}
	got := map[string]int{}
	for _, x := range l.arrivals() {
		got[x.key]++
	}
	for k, n := range got {
		if n > asks[k] {
			return fmt.Errorf("%d requests for %s made, %d arrived", asks[k], k, n)
		}
	}
	if e := l.client.Disconnect(); e != nil {
		return fmt.Errorf("disconnect at last: %s", emsg(e))
	}
	if err := leftovers(); err != nil {
		return err
	}
	if connects+disconnects == 0 {
		o.Trivial()
	}
	if connects > 1 {
		o.Label("several connections")
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID:    "C25",
		Title: "Connecting and disconnecting never crashes or wedges a client",
		Rule:  "the client reconnects, to the same address or another, or several goroutines connect and disconnect",
		Live:  true,
		Race:  true,
		Subs: []engine.Sub{
			engine.NewSubLimits("histories", 1200, 25000, clientLimits, genLife, runLife),
			engine.NewSubLimits("storms", 800, 16000, clientLimits, genStorm, runStorm),
			engine.NewSubLimits("stalled", 24, 400, clientLimits, genStall, runStall),
			engine.NewSubLimits("addresses", 300, 5000, clientLimits, genAddrCase, runAddrCase),
		},
	})
}
