package props

import (
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/logger"
	"github.com/dufourgilles/emberlib/socket"
	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/glow"
	"vpharness/peer"
	"vpharness/s101"
)

// ---- C24: keep-alives

// What a provider sends.
const (
	sayReq     = iota // keep-alive requests
	sayResp           // keep-alive responses
	sayUpdate         // an element's contents, in frames, keep-alives between them
	sayDamaged        // a frame with a wrong byte
	sayCut            // a frame without its end
	sayJunk           // bytes between frames
	says
)

type sayItem struct {
	Kind int
	N    int // how many, or which element
	At   int // where the damage is
	Len  int
	Gap  int // µs afterwards
}

type askItem struct {
	El  int // -1 the root
	Gap int // µs afterwards
}

type aliveRound struct {
	Say  []sayItem
	Ask  []askItem
	Wire wire
}

type aliveCase struct {
	Tree   []*glow.Elem
	Rounds []aliveRound // one connection each
	First  bool         // keep-alives before anything else
}

func genAlive(t *rapid.T) aliveCase {
	c := aliveCase{Tree: genSmallTree(t, 10), First: rapid.Bool().Draw(t, "first")}
	n := countElems(c.Tree)
	rounds := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "rounds")
	gap := rapid.SampledFrom([]int{0, 0, 0, 0, 100, 1000, 3000})
	for i := 0; i < rounds; i++ {
		r := aliveRound{Wire: genWire(t)}
		says := rapid.IntRange(1, 14).Draw(t, "says")
		for k := 0; k < says; k++ {
			s := sayItem{Kind: rapid.SampledFrom([]int{sayReq, sayReq, sayReq, sayResp, sayUpdate, sayUpdate, sayDamaged, sayCut, sayJunk}).Draw(t, "say"), Gap: gap.Draw(t, "gap")}
			switch s.Kind {
			case sayReq:
				s.N = rapid.SampledFrom([]int{1, 1, 1, 2, 3, 7, 40}).Draw(t, "burst")
			case sayResp:
				s.N = rapid.SampledFrom([]int{1, 1, 2, 5}).Draw(t, "burst")
			case sayUpdate, sayDamaged, sayCut:
				s.N = rapid.IntRange(0, n-1).Draw(t, "el")
				s.At = rapid.IntRange(0, 2000).Draw(t, "damageAt")
			case sayJunk:
				s.N = rapid.IntRange(0, 0xf7).Draw(t, "junk")
				s.Len = rapid.SampledFrom([]int{1, 2, 8, 300}).Draw(t, "junkLen")
			}
			r.Say = append(r.Say, s)
		}
		for k := rapid.SampledFrom([]int{0, 1, 3, 10, 30}).Draw(t, "asks"); k > 0; k-- {
			r.Ask = append(r.Ask, askItem{El: rapid.IntRange(-1, n-1).Draw(t, "ask"), Gap: gap.Draw(t, "gap")})
		}
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

// bytes makes the stream of one item, and counts its keep-alive requests.
func (r *aliveRound) bytes(s sayItem, paths [][]int32, tree []*glow.Elem, nth *int) (out []byte, reqs int) {
	update := func() []byte {
		e, _ := locate(tree, paths[s.N])
		return r.Wire.Spell.Root([]*glow.Elem{qualified(lone(e), paths[s.N])})
	}
	switch s.Kind {
	case sayReq:
		for i := 0; i < s.N; i++ {
			out = append(out, s101.KeepAlive(s101.Req)...)
		}
		return out, s.N
	case sayResp:
		for i := 0; i < s.N; i++ {
			out = append(out, s101.KeepAlive(s101.Resp)...)
		}
	case sayUpdate:
		return r.Wire.stream(update(), nth)
	case sayDamaged, sayCut:
		f := s101.EmberFrame(0xc0, update())
		at := 1 + s.At%(len(f)-2)
		if s.Kind == sayCut {
			return f[:at+1], 0
		}
		// no frame delimiter may come or go
		if f[at] >= 0xf8 || f[at-1] == 0xfd {
			return nil, 0
		}
		f[at] ^= 0x15
		if f[at] >= 0xf8 {
			return nil, 0
		}
		return f, 0
	case sayJunk:
		for i := 0; i < s.Len; i++ {
			out = append(out, byte(s.N))
		}
	}
	return out, 0
}

func runAlive(c aliveCase, o *engine.Obs) error {
	p, err := peer.New()
	if err != nil {
		panic(err)
	}
	defer p.Close()
	client := socket.NewS101Client()
	if os.Getenv("VP_DEBUG") != "" {
		client.SetLogger(logger.NewConsoleLogger(logger.ErrorLevel))
	}
	defer client.Disconnect()
	var els []*embertree.Element
	var paths [][]int32
	all := 0
	for i := range c.Rounds {
		round := &c.Rounds[i]
		if e := client.Connect("127.0.0.1", p.Port); e != nil {
			return fmt.Errorf("connect: %s", emsg(e))
		}
		conn := p.Next()
		if conn == nil {
			return hung("client didn't connect")
		}
		w := round.Wire
		a := newActor(conn, w, c.Tree, nil)
		if c.First {
			if err := a.fence(); err != nil {
				return err
			}
		}
		var want []string
		if i == 0 {
			// make the elements known
			ear := &outcomes{}
			var root *embertree.RootElement
			ear.then = func(x interface{}) {
				if r, ok := x.(*embertree.RootElement); ok {
					root = r
					r.RemoveListener(ear)
				}
			}
			if e := client.GetDirectory(nil, ear); e != nil {
				return fmt.Errorf("GetDirectory: %s", emsg(e))
			}
			want = append(want, pathKey(nil))
			if !soon(func() bool { return a.arrived() == 1 || a.broken() != nil }) {
				return hung("request for the root didn't arrive")
			}
			a.say(a.rootReply())
			if !soon(func() bool { return ear.n() > 0 }) {
				return hung("listener for the root wasn't called")
			}
			if err := a.fence(); err != nil {
				return err
			}
			if root == nil {
				return fmt.Errorf("listener for the root gets no tree")
			}
			var visit func(es []*glow.Elem, path []int32)
			visit = func(es []*glow.Elem, path []int32) {
				for _, e := range es {
					path := append(append([]int32{}, path...), e.Num)
					_, el := root.GetElementByPath(path)
					els, paths = append(els, el), append(paths, path)
					visit(e.Kids, path)
				}
			}
			visit(c.Tree, nil)
			for k, el := range els {
				if el == nil {
					return fmt.Errorf("element %v isn't known after the root's answer", paths[k])
				}
			}
		}
		// both sides at once
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, s := range round.Say {
				a.mu.Lock()
				b, reqs := round.bytes(s, paths, c.Tree, &a.nth)
				a.keeps += reqs
				a.mu.Unlock()
				_ = conn.Send(b, w.Chunks, w.Gaps)
				if s.Gap > 0 {
					time.Sleep(time.Duration(s.Gap) * time.Microsecond)
				}
			}
		}()
		for _, q := range round.Ask {
			var el *embertree.Element
			key := pathKey(nil)
			if q.El >= 0 {
				el, key = els[q.El], pathKey(paths[q.El])
			}
			if e := client.GetDirectory(el, nil); e != nil {
				wg.Wait()
				return fmt.Errorf("GetDirectory: %s", emsg(e))
			}
			want = append(want, key)
			if q.Gap > 0 {
				time.Sleep(time.Duration(q.Gap) * time.Microsecond)
			}
		}
		wg.Wait()
		okay := func() bool {
			a.mu.Lock()
			defer a.mu.Unlock()
			return a.bad != nil || len(a.asked) >= len(want) && a.resps >= a.keeps
		}
		if !soon(okay) {
			a.mu.Lock()
			defer a.mu.Unlock()
			return hung("%d of %d keep-alive requests answered, %d of %d requests arrived", a.resps, a.keeps, len(a.asked), len(want))
		}
		// what follows a frame that was cut is lost with it, but not more
		if err := a.fence(); err != nil {
			return err
		}
		if e := client.Disconnect(); e != nil {
			return fmt.Errorf("disconnect: %s", emsg(e))
		}
		<-a.done
		if a.bad != nil {
			return a.bad
		}
		if a.resps != a.keeps {
			return fmt.Errorf("%d keep-alive responses to %d requests", a.resps, a.keeps)
		}
		for k, x := range a.asked {
			if k >= len(want) || x.key != want[k] {
				return fmt.Errorf("request %d that arrived is for %s, requests made %v", k, x.key, want)
			}
		}
		if len(a.asked) != len(want) {
			return fmt.Errorf("%d requests arrived, %d were made", len(a.asked), len(want))
		}
		all += a.keeps
		if len(round.Ask) > 3 {
			o.Label("amid requests")
		}
	}
	if len(c.Rounds) > 1 {
		o.Label("several connections")
	}
	if all < 3 {
		o.Trivial()
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID:    "C24",
		Title: "Keep-alive requests are answered",
		Rule:  "three keep-alive requests or more",
		Live:  true,
		Subs:  []engine.Sub{engine.NewSubLimits("traffic", 1500, 30000, clientLimits, genAlive, runAlive)},
	})
}
