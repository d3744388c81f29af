package props

import (
	"fmt"
	"sync"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/glow"
	"vpharness/peer"
)

// ---- C26: requests from several goroutines

const queueRoom = 256 // requests that wait to be sent

type crowdCase struct {
	Tree    []*glow.Elem
	Wire    wire
	Plans   [][]crowdOp // of one goroutine each
	Shared  bool        // goroutines ask for the same elements
	Timeout int         // ms
	Late    bool        // the client connects meanwhile
	Updates []int       // elements updated meanwhile
	Chain   int         // requests made one after the other in callbacks
	Silent  int         // percent of requests that aren't answered, with a timeout
}

type crowdOp struct {
	El   int // of the goroutine's elements
	Gap  int // µs afterwards
	Bare bool
}

func genCrowd(t *rapid.T) crowdCase {
	c := crowdCase{Wire: genWire(t), Shared: rapid.IntRange(0, 2).Draw(t, "shared") == 0, Late: rapid.IntRange(0, 3).Draw(t, "late") == 0}
	c.Tree = genSmallTree(t, 14)
	most := 50
	if rapid.IntRange(0, 30).Draw(t, "deepTree") == 17 {
		most = 800
		// paths that may take several frames
		var e *glow.Elem
		for n := rapid.IntRange(5, 800).Draw(t, "levels"); n > 0; n-- {
			up := &glow.Elem{Kind: glow.Node, Num: rapid.SampledFrom([]int32{1, 200, 300000000, 2000000000}).Draw(t, "levelNum")}
			if e != nil {
				up.Kids = []*glow.Elem{e}
			}
			e = up
		}
		e.Num = 1999999
		c.Tree = append(c.Tree, e)
	}
	// enough for every goroutine
	for i := int32(0); i < 8; i++ {
		c.Tree = append(c.Tree, &glow.Elem{Kind: rapid.SampledFrom([]string{glow.Node, glow.Param, glow.Matrix, glow.Func}).Draw(t, "kind"), Num: 2000000 + i})
	}
	if rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
		c.Timeout = rapid.SampledFrom([]int{1, 2, 5, 20}).Draw(t, "timeout")
		c.Silent = rapid.SampledFrom([]int{0, 30, 100}).Draw(t, "silent")
	}
	long := rapid.IntRange(0, 5).Draw(t, "long") == 0
	for g := rapid.IntRange(2, 6).Draw(t, "goroutines"); g > 0; g-- {
		n := rapid.IntRange(1, 12).Draw(t, "requests")
		if long {
			n = rapid.IntRange(1, 120).Draw(t, "manyRequests")
		}
		var plan []crowdOp
		for ; n > 0; n-- {
			plan = append(plan, crowdOp{El: rapid.IntRange(0, most).Draw(t, "el"), Bare: rapid.IntRange(0, 4).Draw(t, "bare") == 0,
				Gap: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 30, 400}).Draw(t, "gap")})
		}
		c.Plans = append(c.Plans, plan)
	}
	c.Updates = rapid.SliceOfN(rapid.IntRange(0, 50), 0, 12).Draw(t, "updates")
	c.Chain = rapid.SampledFrom([]int{0, 0, 1, 4, 10}).Draw(t, "chain")
	return c
}

type crowdReq struct {
	key     string
	ear     *outcomes
	refused bool
}

func runCrowd(c crowdCase, o *engine.Obs) error {
	lc := lifeCase{Tree: c.Tree, Wire: c.Wire}
	p, err := peer.New()
	if err != nil {
		panic(err)
	}
	defer p.Close()
	l := &life{c: &lc, p: p, client: newClient()}
	defer l.client.Disconnect()
	if err := l.know(); err != nil {
		return err
	}
	if c.Late {
		if e := l.client.Disconnect(); e != nil {
			return fmt.Errorf("disconnect: %s", emsg(e))
		}
		l.state = 0
	}
	answering := func(a *actor) {
		a.mu.Lock()
		defer a.mu.Unlock()
		n := 0
		was := a.auto
		a.auto = func(x arrival) []byte {
			n++
			if c.Silent > 0 && x.key != pathKey([]int32{probeNum}) && n*37%100 < c.Silent {
				return nil
			}
			return was(x)
		}
	}
	if !c.Late {
		answering(l.current())
	}
	l.client.SetTimeout(c.Timeout)
	groups := len(c.Plans) + 1 // the last is the callbacks'
	mine := func(g, k int) int {
		n := len(l.els) - 1
		if c.Shared {
			return 1 + k%n
		}
		own := (n-g-1)/groups + 1
		return 1 + g + groups*(k%own)
	}
	group := map[string]int{}
	if !c.Shared {
		for i := 1; i < len(l.els); i++ {
			group[pathKey(l.paths[i])] = (i - 1) % groups
		}
	}
	made := make([][]*crowdReq, groups)
	var mu sync.Mutex // of the callbacks' requests
	var chain func(k int)
	ask := func(g, k int, bare bool, then func()) *crowdReq {
		i := mine(g, k)
		el := l.els[i]
		q := &crowdReq{key: pathKey(l.paths[i]), ear: &outcomes{}}
		q.ear.then = func(interface{}) {
			el.RemoveListener(q.ear)
			if then != nil {
				then()
			}
		}
		if bare {
			q.ear = nil
			q.refused = l.client.GetDirectory(el, nil) != nil
		} else {
			q.refused = l.client.GetDirectory(el, q.ear) != nil
		}
		return q
	}
	chain = func(k int) {
		if k == 0 {
			return
		}
		var q *crowdReq
		mu.Lock()
		q = ask(groups-1, k, false, func() { chain(k - 1) })
		made[groups-1] = append(made[groups-1], q)
		mu.Unlock()
	}
	total := c.Chain
	for _, plan := range c.Plans {
		total += len(plan)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g, plan := range c.Plans {
		g, plan := g, plan
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, op := range plan {
				made[g] = append(made[g], ask(g, op.El, op.Bare, nil))
				if op.Gap > 0 {
					time.Sleep(time.Duration(op.Gap) * time.Microsecond)
				}
			}
		}()
	}
	close(start)
	if c.Late {
		if err := l.connect(); err != nil {
			return err
		}
		answering(l.current())
	}
	chain(c.Chain)
	for _, u := range c.Updates {
		i := u % len(l.els)
		// the element as it was, and something new below some
		e, _ := locate(c.Tree, l.paths[i])
		x := qualified(lone(e), l.paths[i])
		if u%3 == 0 && (e.Kind == glow.Node || e.Kind == glow.Func) {
			x.Kids = []*glow.Elem{{Kind: glow.Node, Num: int32(3000000 + u)}}
		}
		l.current().say(c.Wire.Spell.Root([]*glow.Elem{x}))
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(peer.Patience):
		return hung("requests from several goroutines don't return")
	}
	if !soon(func() bool {
		mu.Lock()
		defer mu.Unlock()
		n := len(made[groups-1])
		return n == c.Chain || n > 0 && made[groups-1][n-1].refused
	}) {
		return hung("callbacks weren't called")
	}
	// the end of the queue
	if !soon(func() bool { e := l.client.GetDirectory(l.els[0], nil); return e == nil }) {
		return hung("the queue stays full")
	}
	probe := pathKey([]int32{probeNum})
	if !soon(func() bool {
		got := l.arrivals()
		return l.broken() != nil || len(got) > 0 && got[len(got)-1].key == probe
	}) {
		return hung("last request doesn't arrive")
	}
	if err := l.current().fence(); err != nil {
		return err
	}
	got := l.arrivals()
	got = got[:len(got)-1]
	refused := 0
	want := map[string]int{}
	inOrder := make([][]string, groups)
	for g, list := range made {
		for _, q := range list {
			if q.refused {
				refused++
				continue
			}
			want[q.key]++
			inOrder[g] = append(inOrder[g], q.key)
		}
	}
	if refused > 0 && total <= queueRoom {
		return fmt.Errorf("%d of %d requests refused", refused, total)
	}
	if refused > 0 {
		o.Label("queue full")
	}
	arrived := map[string]int{}
	for _, x := range got {
		arrived[x.key]++
		if c.Shared {
			continue
		}
		g := group[x.key]
		if len(inOrder[g]) == 0 || inOrder[g][0] != x.key {
			return fmt.Errorf("goroutine %d asks for %v next, %s arrived (arrivals %v)", g, inOrder[g], x.key, got)
		}
		inOrder[g] = inOrder[g][1:]
	}
	for k, n := range want {
		if arrived[k] != n {
			return fmt.Errorf("%d requests for %s made, %d arrived", n, k, arrived[k])
		}
	}
	if len(got) != total-refused-(c.Chain-len(made[groups-1])) {
		return fmt.Errorf("%d requests made, %d refused, %d arrived", total, refused, len(got))
	}
	heard := func() (n int) {
		for _, list := range made {
			for _, q := range list {
				if q.ear != nil && !q.refused && q.ear.n() == 0 {
					n++
				}
			}
		}
		return n
	}
	if !soon(func() bool { return heard() == 0 }) {
		return hung("listeners of %d requests weren't called", heard())
	}
	timeouts := 0
	for _, list := range made {
		for _, q := range list {
			if q.ear == nil || q.refused {
				continue
			}
			calls := q.ear.all()
			if len(calls) != 1 {
				return fmt.Errorf("listener of one request for %s called %d times", q.key, len(calls))
			}
			if calls[0].bad {
				timeouts++
				if c.Timeout == 0 {
					return fmt.Errorf("listener of a request for %s gets the error %s", q.key, calls[0].err)
				}
				continue
			}
			el, ok := calls[0].node.(*embertree.Element)
			if !ok || pathKey(el.GetPath()) != q.key {
				return fmt.Errorf("listener of a request for %s gets %T", q.key, calls[0].node)
			}
		}
	}
	if timeouts > 0 {
		o.Label("timeouts")
	}
	if c.Late {
		o.Label("connects meanwhile")
	}
	if c.Shared {
		o.Label("same elements")
	}
	if total < 8 {
		o.Trivial()
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID:    "C26",
		Title: "Concurrent requests are each sent exactly once, race-free",
		Rule:  "eight requests or more",
		Live:  true,
		Race:  true,
		Subs:  []engine.Sub{engine.NewSubLimits("plans", 1500, 30000, clientLimits, genCrowd, runCrowd)},
	})
}
