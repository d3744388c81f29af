package props

import (
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"github.com/dufourgilles/emberlib/socket"
	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/glow"
	"vpharness/peer"
	"vpharness/s101"
)

// ---- a scripted provider

// arrival is a request as the provider received it.
type arrival struct {
	key  string
	path []int32
	kind string
}

// actor is the provider's end of one connection.
type actor struct {
	conn  *peer.Conn
	wire  wire
	tree  []*glow.Elem
	mu    sync.Mutex
	asked []arrival
	reqs  int // keep-alive requests received, of which there mustn't be any
	resps int
	keeps int // keep-alive requests sent
	nth   int
	autos int // answers of auto that were sent
	bad   error
	auto  func(arrival) []byte // answers at once, if it says so
	done  chan struct{}
}

func newActor(conn *peer.Conn, w wire, tree []*glow.Elem, auto func(arrival) []byte) *actor {
	a := &actor{conn: conn, wire: w, tree: tree, auto: auto, done: make(chan struct{})}
	go a.run()
	return a
}

// newEcho makes an actor that answers all requests at once.
func newEcho(conn *peer.Conn, w wire, tree []*glow.Elem) *actor {
	a := &actor{conn: conn, wire: w, tree: tree, done: make(chan struct{})}
	a.auto = a.echo
	go a.run()
	return a
}

func (a *actor) echo(x arrival) []byte {
	if len(x.path) == 0 {
		return a.rootReply()
	}
	return a.self(x.path)
}

func (a *actor) fail(format string, args ...any) {
	if a.bad == nil {
		a.bad = fmt.Errorf(format, args...)
	}
}

func (a *actor) run() {
	defer close(a.done)
	for e := range a.conn.Events() {
		a.mu.Lock()
		var reply []byte
		switch e.Kind {
		case "message":
			path, kind, _, err := request(e.Data)
			if err != nil {
				a.fail("client sends %s: %v", hexs(e.Data), err)
				break
			}
			x, _ := locate(a.tree, path)
			if len(path) > 0 && x == nil {
				a.fail("client asks for %v, which the provider doesn't have", path)
				break
			}
			if x != nil && x.Kind != kind {
				a.fail("client asks for %v as a %s, it is a %s", path, kind, x.Kind)
			}
			r := arrival{key: pathKey(path), path: path, kind: kind}
			a.asked = append(a.asked, r)
			if a.auto != nil {
				reply = a.auto(r)
			}
		case "resp":
			a.resps++
		case "cut":
			// the client hung up within a message
		case "part":
		default:
			a.fail("client sends %s %s", e.Kind, e.Why)
		}
		a.mu.Unlock()
		if reply != nil {
			a.say(reply)
			a.mu.Lock()
			a.autos++
			a.mu.Unlock()
		}
	}
}

// say sends one message.
func (a *actor) say(payload []byte) {
	a.mu.Lock()
	b, n := a.wire.stream(payload, &a.nth)
	a.keeps += n
	a.mu.Unlock()
	_ = a.conn.Send(b, a.wire.Chunks, a.wire.Gaps)
}

// self is an element's own answer, without children.
func (a *actor) self(path []int32) []byte {
	e, _ := locate(a.tree, path)
	return a.wire.Spell.Root([]*glow.Elem{qualified(lone(e), path)})
}

// rootReply announces all there is.
func (a *actor) rootReply() []byte { return a.wire.Spell.Root(a.tree) }

func (a *actor) arrived() int {
	a.mu.Lock()
	defer a.mu.Unlock()
	return len(a.asked)
}

func (a *actor) broken() error {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.bad
}

// fence waits until the client has handled everything sent so far.
func (a *actor) fence() error {
	a.mu.Lock()
	a.keeps++
	want := a.keeps
	a.mu.Unlock()
	_ = a.conn.Send(s101.KeepAlive(s101.Req), nil, nil)
	if !soon(func() bool { a.mu.Lock(); defer a.mu.Unlock(); return a.resps >= want || a.bad != nil }) {
		return hung("keep-alive request isn't answered")
	}
	return a.broken()
}

// ---- listeners that record

type result struct {
	node interface{}
	err  string
	bad  bool
	at   time.Time
}

type outcomes struct {
	mu    sync.Mutex
	calls []result
	then  func(node interface{})
}

func (l *outcomes) Receive(x interface{}, e errors.Error) {
	l.mu.Lock()
	out := result{node: x, at: time.Now()}
	if e != nil {
		out.bad, out.err = true, emsg(e)
	}
	l.calls = append(l.calls, out)
	first := len(l.calls) == 1
	l.mu.Unlock()
	if l.then != nil && first {
		l.then(x)
	}
}

func (l *outcomes) all() []result {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]result{}, l.calls...)
}

func (l *outcomes) n() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.calls)
}

// ---- a client that knows the provider's elements

type rig struct {
	p      *peer.Peer
	client *socket.S101Client
	root   *embertree.RootElement
	a      *actor
	tree   []*glow.Elem
	paths  [][]int32
	els    []*embertree.Element
}

func (r *rig) close() {
	_ = r.client.Disconnect()
	r.p.Close()
}

// unmet has a provider to connect to but is not connected.
func (r *rig) unmet(tree []*glow.Elem) error {
	var err error
	if r.p, err = peer.New(); err != nil {
		panic(err)
	}
	r.tree = tree
	r.client = newClient()
	return nil
}

// meet connects and makes the provider's elements known.
func (r *rig) meet(w wire, tree []*glow.Elem, auto func(arrival) []byte) error {
	var err error
	r.p, err = peer.New()
	if err != nil {
		panic(err)
	}
	r.tree = tree
	r.client = socket.NewS101Client()
	if os.Getenv("VP_DEBUG") != "" {
		r.client.SetLogger(logger.NewConsoleLogger(logger.ErrorLevel))
	}
	if e := r.client.Connect("127.0.0.1", r.p.Port); e != nil {
		return fmt.Errorf("connect: %s", emsg(e))
	}
	conn := r.p.Next()
	if conn == nil {
		return hung("client didn't connect")
	}
	r.a = newActor(conn, w, tree, auto)
	ear := &outcomes{}
	ear.then = func(x interface{}) {
		if root, ok := x.(*embertree.RootElement); ok {
			root.RemoveListener(ear)
		}
	}
	if e := r.client.GetDirectory(nil, ear); e != nil {
		return fmt.Errorf("GetDirectory of the root: %s", emsg(e))
	}
	if !soon(func() bool { return r.a.arrived() == 1 || r.a.broken() != nil }) {
		return hung("request for the root didn't arrive")
	}
	if err := r.a.broken(); err != nil {
		return err
	}
	r.a.say(r.a.rootReply())
	if !soon(func() bool { return ear.n() > 0 }) {
		return hung("listener for the root wasn't called")
	}
	if err := r.a.fence(); err != nil {
		return err
	}
	got := ear.all()
	root, ok := got[0].node.(*embertree.RootElement)
	if !ok || got[0].bad || len(got) != 1 {
		return fmt.Errorf("listener for the root gets %d calls, %T, error %q", len(got), got[0].node, got[0].err)
	}
	r.root = root
	var visit func(es []*glow.Elem, path []int32) error
	visit = func(es []*glow.Elem, path []int32) error {
		for _, e := range es {
			p := append(append([]int32{}, path...), e.Num)
			_, el := root.GetElementByPath(p)
			if el == nil {
				return fmt.Errorf("element %v isn't known after the root's answer", p)
			}
			r.paths = append(r.paths, p)
			r.els = append(r.els, el)
			if err := visit(e.Kids, p); err != nil {
				return err
			}
		}
		return nil
	}
	return visit(tree, nil)
}

// ---- C23: answers and timeouts

// Fates of a request.
const (
	fateLate  = iota // answered after its timeout
	fateNever        // not answered
	fateNear         // answered around its timeout
	fates
)

type askReq struct {
	El    int // element, -1 the root
	Ears  int // listeners that ask
	Twice bool
	Fate  int
	Delay int // µs before the answer
	Stay  bool
	Then  bool // ask for something else in the callback
}

type askRound struct {
	T    int // ms, 0 none
	Reqs []askReq
	Back bool // answers in reverse order
}

type askCase struct {
	Tree   []*glow.Elem
	Wire   wire
	Rounds []askRound
}

const longTimeout = 40000

// unlimited are timeouts that do not elapse while a case runs.
var unlimited = []int{0, 0, longTimeout, longTimeout, 1<<16 + 20, 1 << 24, 1 << 31, 1<<32 + 15}

func endless(ms int) bool { return ms == 0 || ms >= longTimeout }

// probeNum is the number of an element that always answers.
const probeNum = 1234567

func genSmallTree(t *rapid.T, budget int) []*glow.Elem {
	o := &treeOpts{depth: rapid.IntRange(0, 3).Draw(t, "depth"), budget: rapid.IntRange(1, budget).Draw(t, "budget"), bare: true, noCmd: true}
	tree := genKids(t, o, o.depth)
	oneConnPerTarget(tree)
	kept := []*glow.Elem{{Kind: glow.Node, Num: probeNum}}
	for _, e := range tree {
		if e.Num != probeNum {
			kept = append(kept, e)
		}
	}
	return kept
}

func countElems(es []*glow.Elem) (n int) {
	for _, e := range es {
		e.Walk(func(*glow.Elem, int) { n++ })
	}
	return n
}

func genAsk(t *rapid.T) askCase {
	c := askCase{Tree: genSmallTree(t, 8), Wire: genWire(t)}
	n := countElems(c.Tree)
	rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
	for i := 0; i < rounds; i++ {
		r := askRound{T: rapid.OneOf(rapid.SampledFrom(unlimited), rapid.IntRange(1, 60), rapid.IntRange(1, 60)).Draw(t, "timeout")}
		r.Back = rapid.Bool().Draw(t, "back")
		quick := endless(r.T)
		ask := func(el int) {
			q := askReq{El: el, Ears: rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "ears"), Stay: rapid.Bool().Draw(t, "stay") && el >= 0}
			q.Then = rapid.IntRange(0, 3).Draw(t, "then") == 0
			if quick {
				q.Fate = fateNear
				q.Delay = rapid.SampledFrom([]int{0, 0, 500, 5000, 70000}).Draw(t, "delay")
			} else {
				q.Fate = rapid.IntRange(0, fates-1).Draw(t, "fate")
				if q.Fate == fateNear {
					q.Delay = rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 2000*r.T), rapid.IntRange(max(0, 1000*r.T-3000), 1000*r.T+1000)).Draw(t, "nearDelay")
				} else {
					q.Twice = rapid.IntRange(0, 3).Draw(t, "twice") == 0
				}
				// what answers the request made in the callback answers what is still asked of the root
				if el < 0 && (q.Ears > 1 || q.Twice) {
					q.Then = false
				}
			}
			r.Reqs = append(r.Reqs, q)
		}
		if rapid.IntRange(0, 4).Draw(t, "root") == 0 {
			ask(-1)
		} else {
			els := rapid.SliceOfNDistinct(rapid.IntRange(0, n), 1, 5, rapid.ID[int]).Draw(t, "els")
			for _, el := range els {
				if el > 0 {
					ask(min(el, n-1))
				}
			}
			seen := map[int]bool{}
			kept := r.Reqs[:0]
			for _, q := range r.Reqs {
				if !seen[q.El] && q.El > 0 {
					seen[q.El] = true
					kept = append(kept, q)
				}
			}
			r.Reqs = kept
			if len(r.Reqs) == 0 {
				ask(-1)
			}
		}
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

type asker struct {
	req    *askReq
	ear    *outcomes
	nested *outcomes
	asked  int
	from   time.Time // before the first request
	upto   time.Time // after the last one
	refuse string
}

func runAsk(c askCase, o *engine.Obs) error {
	var r rig
	probeAuto := func(x arrival) []byte {
		if x.key == pathKey([]int32{probeNum}) {
			return r.a.self(x.path)
		}
		return nil
	}
	defer func() { r.close() }()
	if err := r.meet(c.Wire, c.Tree, probeAuto); err != nil {
		return err
	}
	total := 1
	timeouts := 0
	probes := 0 // requests made in callbacks
	for _, round := range c.Rounds {
		round := round
		r.client.SetTimeout(round.T)
		quick := endless(round.T)
		limit := time.Duration(round.T) * time.Millisecond
		var askers []*asker
		wantMain := map[string]int{}
		var mu sync.Mutex // of what callbacks note
		var noted error
		for i := range round.Reqs {
			q := &round.Reqs[i]
			var el *embertree.Element
			if q.El >= 0 {
				el = r.els[q.El]
			}
			for k := 0; k < q.Ears; k++ {
				as := &asker{req: q, ear: &outcomes{}}
				askers = append(askers, as)
				if q.Then {
					as.nested = &outcomes{}
					nested := as.nested
					nested.then = func(x interface{}) { r.els[0].RemoveListener(nested) }
					probes++
				}
				ear := as.ear
				stay := q.Stay
				nested := as.nested
				ear.then = func(x interface{}) {
					if !stay {
						if el != nil {
							el.RemoveListener(ear)
						} else {
							r.root.RemoveListener(ear)
						}
					}
					if nested != nil {
						if e := r.client.GetDirectory(r.els[0], nested); e != nil {
							mu.Lock()
							noted = fmt.Errorf("request from a callback: %s", emsg(e))
							mu.Unlock()
						}
					}
				}
				n := 1
				if q.Twice {
					n = 2
				}
				as.from = time.Now()
				for ; n > 0; n-- {
					if e := r.client.GetDirectory(el, ear); e != nil {
						return fmt.Errorf("GetDirectory: %s", emsg(e))
					}
					as.asked++
					total++
				}
				as.upto = time.Now()
				if el == nil {
					wantMain[pathKey(nil)] += as.asked
				} else {
					wantMain[pathKey(r.paths[q.El])] += as.asked
				}
			}
		}
		arrivedAll := func() bool {
			r.a.mu.Lock()
			defer r.a.mu.Unlock()
			got := 0
			for _, x := range r.a.asked {
				if x.key != pathKey([]int32{probeNum}) {
					got++
				}
			}
			return got >= total
		}
		if !soon(func() bool { return arrivedAll() || r.a.broken() != nil }) {
			return hung("requests didn't arrive")
		}
		if err := r.a.broken(); err != nil {
			return err
		}
		answer := func(q *askReq) {
			if q.El < 0 {
				r.a.say(r.a.rootReply())
			} else {
				r.a.say(r.a.self(r.paths[q.El]))
			}
		}
		order := make([]*askReq, 0, len(round.Reqs))
		for i := range round.Reqs {
			order = append(order, &round.Reqs[i])
		}
		if round.Back {
			for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
				order[i], order[j] = order[j], order[i]
			}
		}
		sent := map[*askReq]time.Time{}
		for _, q := range order {
			if q.Fate != fateNear {
				continue
			}
			time.Sleep(time.Duration(q.Delay) * time.Microsecond)
			if quick {
				for _, as := range askers {
					if as.req == q && as.ear.n() > 0 {
						return fmt.Errorf("listener called before the answer, %s after the request with timeout %d: %+v", as.ear.all()[0].at.Sub(as.from), round.T, as.ear.all()[0])
					}
				}
			}
			sent[q] = time.Now()
			answer(q)
		}
		finished := func() bool {
			for _, as := range askers {
				want := 1
				if as.req.Fate != fateNear {
					want = as.asked
				}
				if as.ear.n() < want || as.nested != nil && as.nested.n() < 1 {
					return false
				}
			}
			return true
		}
		if !soon(func() bool { return finished() || r.a.broken() != nil }) {
			for _, as := range askers {
				if as.ear.n() == 0 {
					return hung("request (fate %d, timeout %d ms) has no outcome", as.req.Fate, round.T)
				}
			}
			return hung("a request made in a callback, or repeated, has no outcome (timeout %d ms)", round.T)
		}
		for _, q := range order {
			if q.Fate == fateLate {
				answer(q)
				o.Label("late answer")
			}
		}
		// also what is answered after its timeout
		if !soon(func() bool { r.a.mu.Lock(); defer r.a.mu.Unlock(); return r.a.autos >= probes }) {
			return hung("a request made in a callback didn't arrive")
		}
		if err := r.a.fence(); err != nil {
			return err
		}
		// timers that weren't stopped would still fire
		if !quick {
			last := time.Time{}
			for _, as := range askers {
				last = as.upto
			}
			time.Sleep(time.Until(last.Add(limit + 3*time.Millisecond)))
		}
		mu.Lock()
		err := noted
		mu.Unlock()
		if err != nil {
			return err
		}
		for _, as := range askers {
			calls := as.ear.all()
			want := 1
			if as.req.Fate != fateNear {
				want = as.asked
			}
			if len(calls) != want {
				return fmt.Errorf("%d outcomes of %d requests (fate %d, timeout %d ms): %+v", len(calls), want, as.req.Fate, round.T, calls)
			}
			if as.nested != nil && as.nested.n() != 1 {
				return fmt.Errorf("%d outcomes of a request made in a callback", as.nested.n())
			}
			for _, call := range calls {
				if call.bad {
					timeouts++
					if quick {
						return fmt.Errorf("request with timeout %d ms fails with %q", round.T, call.err)
					}
					if call.node != nil {
						return fmt.Errorf("timeout error comes with %T", call.node)
					}
					if d := call.at.Sub(as.from); d < limit {
						return fmt.Errorf("timeout of %v reported after %v", limit, d)
					}
					continue
				}
				if as.req.Fate != fateNear {
					return fmt.Errorf("unanswered request (fate %d, timeout %d ms) succeeds", as.req.Fate, round.T)
				}
				if as.req.El < 0 {
					if call.node != interface{}(r.root) {
						return fmt.Errorf("listener for the root gets %T", call.node)
					}
				} else if call.node != interface{}(r.els[as.req.El]) {
					return fmt.Errorf("listener for %v gets %T %v", r.paths[as.req.El], call.node, call.node)
				}
				if call.at.Before(sent[as.req]) {
					return fmt.Errorf("listener called before the answer")
				}
				if !quick {
					o.Label("answered in time")
				}
			}
			// the next round starts afresh
			if as.req.El < 0 {
				r.root.RemoveListener(as.ear)
			} else {
				r.els[as.req.El].RemoveListener(as.ear)
			}
		}
		if quick {
			o.Label("no timeout")
		}
	}
	if timeouts > 0 {
		o.Label("timeouts")
	} else {
		o.Trivial()
	}
	// still usable
	r.client.SetTimeout(0)
	probe := &outcomes{}
	if e := r.client.GetDirectory(r.els[0], probe); e != nil {
		return fmt.Errorf("GetDirectory at last: %s", emsg(e))
	}
	if !soon(func() bool { return probe.n() > 0 }) {
		return hung("the client no longer gets answers")
	}
	if got := probe.all(); len(got) != 1 || got[0].bad || got[0].node != interface{}(r.els[0]) {
		return fmt.Errorf("last request: %+v", got)
	}
	if err := r.a.broken(); err != nil {
		return err
	}
	counts := map[string]int{}
	r.a.mu.Lock()
	defer r.a.mu.Unlock()
	for _, x := range r.a.asked {
		if x.key != pathKey([]int32{probeNum}) {
			counts[x.key]++
		}
	}
	n := 0
	for _, k := range counts {
		n += k
	}
	if n != total {
		return fmt.Errorf("%d requests arrived, %d were made", n, total)
	}
	return nil
}

// ---- C23: fetching a tree some of which never answers

type muteCase struct {
	Serve serveCase
	Mute  []int // which elements are silent, -1 the root
	T     int
	Late  bool
}

func genMute(t *rapid.T) muteCase {
	c := muteCase{T: rapid.IntRange(1, 60).Draw(t, "timeout"), Late: rapid.Bool().Draw(t, "late")}
	c.Serve.Tree = genSmallTree(t, 12)
	c.Serve.Wire = genWire(t)
	c.Serve.Styles = []int{rapid.SampledFrom([]int{replySelf, replySelf, replyNested}).Draw(t, "style")}
	n := countElems(c.Serve.Tree)
	c.Mute = rapid.SliceOfNDistinct(rapid.IntRange(-1, n-1), 1, 3, rapid.ID[int]).Draw(t, "mute")
	return c
}

func runMute(c muteCase, o *engine.Obs) error {
	p, err := peer.New()
	if err != nil {
		panic(err)
	}
	defer p.Close()
	client := socket.NewS101Client()
	if os.Getenv("VP_DEBUG") != "" {
		client.SetLogger(logger.NewConsoleLogger(logger.ErrorLevel))
	}
	if e := client.Connect("127.0.0.1", p.Port); e != nil {
		return fmt.Errorf("connect: %s", emsg(e))
	}
	defer client.Disconnect()
	conn := p.Next()
	if conn == nil {
		return hung("client didn't connect")
	}
	mute := map[string]bool{}
	i := 0
	for _, e := range c.Serve.Tree {
		var visit func(e *glow.Elem, path []int32)
		visit = func(e *glow.Elem, path []int32) {
			path = append(append([]int32{}, path...), e.Num)
			for _, m := range c.Mute {
				if m == i {
					mute[pathKey(path)] = true
				}
			}
			i++
			for _, k := range e.Kids {
				visit(k, path)
			}
		}
		visit(e, nil)
	}
	for _, m := range c.Mute {
		if m == -1 {
			mute[pathKey(nil)] = true
		}
	}
	prov := &provider{c: &c.Serve, tree: c.Serve.Tree, conn: conn, mute: mute}
	done := make(chan struct{})
	go prov.serve(done)
	client.SetTimeout(c.T)
	first := &outcomes{}
	if e := client.GetTree(first); e != nil {
		return fmt.Errorf("GetTree: %s", emsg(e))
	}
	if !soon(func() bool { return first.n() > 0 || prov.broken() != nil }) {
		return hung("no outcome of a tree request with timeout %d ms", c.T)
	}
	if err := prov.broken(); err != nil {
		return err
	}
	if got := first.all(); !got[0].bad {
		return fmt.Errorf("tree request succeeds though %v didn't answer", c.Mute)
	}
	prov.mu.Lock()
	skipped := prov.skipped
	prov.mute = nil
	prov.mu.Unlock()
	client.SetTimeout(0)
	if c.Late {
		for _, path := range skipped {
			prov.mu.Lock()
			es := prov.answer(path)
			b, reqs := c.Serve.Wire.stream(c.Serve.Wire.Spell.Root(es), &prov.frames)
			prov.keeps += reqs
			prov.mu.Unlock()
			_ = conn.Send(b, c.Serve.Wire.Chunks, c.Serve.Wire.Gaps)
		}
		if len(skipped) > 0 {
			o.Label("late answers")
		}
	}
	// until all that the first one asked for is answered
	roots := func() (n int) {
		prov.mu.Lock()
		defer prov.mu.Unlock()
		for _, a := range prov.asked {
			if a == pathKey(nil) {
				n++
			}
		}
		return n
	}
	if e := client.GetDirectory(nil, nil); e != nil {
		return fmt.Errorf("GetDirectory: %s", emsg(e))
	}
	if !soon(func() bool { return roots() >= 2 }) {
		return hung("request for the root after a failed tree request didn't arrive")
	}
	settled := func() bool {
		prov.mu.Lock()
		defer prov.mu.Unlock()
		return prov.sent == len(prov.asked)-len(prov.skipped)
	}
	if !soon(settled) {
		return hung("provider didn't answer")
	}
	prov.mu.Lock()
	prov.keeps++
	want := prov.keeps
	prov.mu.Unlock()
	_ = conn.Send(s101.KeepAlive(s101.Req), nil, nil)
	if !soon(func() bool { prov.mu.Lock(); defer prov.mu.Unlock(); return prov.resps >= want }) {
		return hung("keep-alive request isn't answered")
	}
	model := newM("", nil, 0)
	model.announce(c.Serve.Tree, nil)
	ear := &treeEar{check: model.checkRoot}
	if e := client.GetTree(ear); e != nil {
		return fmt.Errorf("GetTree again: %s", emsg(e))
	}
	if !soon(func() bool { n, _ := ear.state(); return n > 0 || prov.broken() != nil }) {
		return hung("no tree after a failed request for it")
	}
	if err := prov.broken(); err != nil {
		return err
	}
	time.Sleep(time.Duration(min(c.T, 20)+2) * time.Millisecond)
	if _, err := ear.state(); err != nil {
		return fmt.Errorf("tree request after a failed one: %v", err)
	}
	if got := first.all(); len(got) != 1 {
		return fmt.Errorf("listener of a failed tree request called %d times: %+v", len(got), got)
	}
	if len(skipped) == 0 {
		o.Trivial()
	}
	return nil
}

// ---- C23: timeouts of seconds and more

type spansCase struct {
	Online bool // a silent provider, or none
	Ms     []int
}

func genSpans(t *rapid.T) spansCase {
	return spansCase{Online: rapid.Bool().Draw(t, "online"), Ms: rapid.SliceOfN(rapid.OneOf(
		rapid.IntRange(500, 2500), rapid.IntRange(500, 2500), rapid.IntRange(2500, 9000),
		rapid.SampledFrom([]int{1000, 1001, 1024, 2000, 5000, 10000, 30000, 60000, 3600000})), 4, 12).Draw(t, "timeouts")}
}

func runSpans(c spansCase, o *engine.Obs) error {
	const span = 3200 * time.Millisecond
	client := newClient()
	if c.Online {
		o.Label("with a connection")
		p, err := peer.New()
		if err != nil {
			panic(err)
		}
		defer p.Close()
		if e := client.Connect("127.0.0.1", p.Port); e != nil {
			return fmt.Errorf("connect: %s", emsg(e))
		}
		defer client.Disconnect()
		if p.Next() == nil {
			return hung("client didn't connect")
		}
	}
	begin := time.Now()
	starts, ends := make([]time.Time, len(c.Ms)), make([]*outcomes, len(c.Ms))
	for i, ms := range c.Ms {
		client.SetTimeout(ms)
		starts[i], ends[i] = time.Now(), &outcomes{}
		if e := client.GetDirectory(embertree.NewNode(i+1), ends[i]); e != nil {
			return fmt.Errorf("GetDirectory: %s", emsg(e))
		}
	}
	time.Sleep(time.Until(begin.Add(span)))
	for i, ms := range c.Ms {
		if ms <= 2500 && !soon(func() bool { return ends[i].n() > 0 }) {
			return hung("a request with a timeout of %d ms doesn't end", ms)
		}
		got := ends[i].all()
		if len(got) > 1 {
			return fmt.Errorf("a request with a timeout of %d ms ends %d times", ms, len(got))
		}
		for _, r := range got {
			if d := r.at.Sub(starts[i]); !r.bad || d < time.Duration(ms)*time.Millisecond {
				return fmt.Errorf("a request with a timeout of %d ms ends after %v (error: %v)", ms, d, r.bad)
			}
		}
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID:    "C23",
		Title: "A request ends in exactly one outcome: answer or timeout",
		Rule:  "some request isn't answered in time",
		Live:  true,
		Subs: []engine.Sub{
			engine.NewSubLimits("requests", 1000, 20000, clientLimits, genAsk, runAsk),
			engine.NewSubLimits("trees", 600, 9000, clientLimits, genMute, runMute),
			engine.NewSubLimits("spans", 4, 40, clientLimits, genSpans, runSpans),
			engine.NewSubLimits("cut off", 600, 9000, clientLimits, genCutOff, runCutOff),
		},
	})
}
