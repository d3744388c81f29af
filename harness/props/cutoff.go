package props

import (
	"fmt"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/glow"
)

// ---- C23: requests whose connection is missing or goes away

// Ways to be without a connection.
const (
	cutNever    = iota // not connected yet
	cutHangUp          // the provider hangs up after the requests have arrived
	cutReset           // the same, without ceremony
	cutOff             // the client disconnects after the requests have arrived
	cutBefore          // the client has disconnected before it asks
	cutMidReply        // the provider hangs up in the middle of an answer
	cuts
)

type cutReq struct {
	El   int // -1 the root
	Ears int
	Tree bool // a tree request, of the root
}

type cutCase struct {
	Tree []*glow.Elem
	Wire wire
	How  int
	T    int // ms; 0 none
	Reqs []cutReq
	Back bool // connects again
	At   int  // how much of the answer arrives
}

func genCutOff(t *rapid.T) cutCase {
	c := cutCase{Tree: genSmallTree(t, 6), Wire: genWire(t), How: rapid.IntRange(0, cuts-1).Draw(t, "how"), Back: rapid.Bool().Draw(t, "back"), At: rapid.IntRange(1, 60).Draw(t, "at")}
	c.T = rapid.OneOf(rapid.IntRange(1, 50), rapid.IntRange(1, 50), rapid.SampledFrom(unlimited)).Draw(t, "timeout")
	n := countElems(c.Tree)
	for i, k := 0, rapid.IntRange(1, 5).Draw(t, "reqs"); i < k; i++ {
		q := cutReq{El: rapid.IntRange(-1, n-1).Draw(t, "el"), Ears: rapid.IntRange(1, 2).Draw(t, "ears")}
		if c.How == cutNever {
			q.El = -1
		}
		q.Tree = q.El < 0 && rapid.Bool().Draw(t, "tree")
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

func runCutOff(c cutCase, o *engine.Obs) error {
	var r rig
	if c.How == cutNever {
		if err := r.unmet(c.Tree); err != nil {
			return err
		}
	} else if err := r.meet(c.Wire, c.Tree, nil); err != nil {
		return err
	}
	defer r.close()
	open := endless(c.T)
	o.Label("%s", []string{"not connected yet", "hang-up", "reset", "disconnected afterwards", "disconnected before", "hang-up within an answer"}[c.How])
	if open {
		o.Label("no timeout")
		o.Trivial()
	}
	if c.How == cutBefore {
		if e := r.client.Disconnect(); e != nil {
			return fmt.Errorf("disconnect: %s", emsg(e))
		}
	}
	r.client.SetTimeout(c.T)
	type waiter struct {
		q    cutReq
		ear  *outcomes
		from time.Time
	}
	var ws []*waiter
	last := time.Time{}
	for _, q := range c.Reqs {
		for k := 0; k < q.Ears; k++ {
			w := &waiter{q: q, ear: &outcomes{}, from: time.Now()}
			ws = append(ws, w)
			if q.Tree {
				if e := r.client.GetTree(w.ear); e != nil {
					return fmt.Errorf("GetTree: %s", emsg(e))
				}
			} else {
				var el *embertree.Element
				if q.El >= 0 {
					el = r.els[q.El]
				}
				if e := r.client.GetDirectory(el, w.ear); e != nil {
					return fmt.Errorf("GetDirectory: %s", emsg(e))
				}
			}
		}
		last = time.Now()
	}
	queued := c.How == cutNever || c.How == cutBefore
	if !queued {
		if !soon(func() bool { return r.a.arrived() == 1+len(ws) || r.a.broken() != nil }) {
			return hung("requests didn't arrive")
		}
		if err := r.a.broken(); err != nil {
			return err
		}
	}
	switch c.How {
	case cutHangUp:
		r.a.conn.Close()
	case cutReset:
		r.a.conn.Reset()
	case cutOff:
		if e := r.client.Disconnect(); e != nil {
			return fmt.Errorf("disconnect: %s", emsg(e))
		}
	case cutMidReply:
		b, _ := r.a.wire.stream(r.a.rootReply(), &r.a.nth)
		// everything but the end
		_ = r.a.conn.Send(b[:max(1, len(b)-1-c.At%len(b))], c.Wire.Chunks, c.Wire.Gaps)
		r.a.conn.Close()
	}
	if !soon(func() bool { return !r.client.IsConnected() }) {
		return hung("a hang-up isn't noticed")
	}
	limit := time.Duration(c.T) * time.Millisecond
	if !open {
		if !soon(func() bool {
			for _, w := range ws {
				if w.ear.n() == 0 {
					return false
				}
			}
			return true
		}) {
			return hung("a request with timeout %d ms that lost its connection has no outcome", c.T)
		}
	}
	check := func(final int) error {
		for _, w := range ws {
			calls := w.ear.all()
			if open {
				if len(calls) > final {
					return fmt.Errorf("request with timeout %d ms, never answered, ends with %+v", c.T, calls)
				}
				for _, x := range calls {
					if x.bad {
						return fmt.Errorf("request with timeout %d ms fails with %q", c.T, x.err)
					}
				}
				continue
			}
			if len(calls) != 1 {
				return fmt.Errorf("%d outcomes of a request that lost its connection, timeout %d ms: %+v", len(calls), c.T, calls)
			}
			if !calls[0].bad {
				return fmt.Errorf("unanswered request succeeds after the connection was lost: %+v", calls[0])
			}
			if d := calls[0].at.Sub(w.from); d < limit {
				return fmt.Errorf("timeout of %v reported after %v", limit, d)
			}
		}
		return nil
	}
	if !open {
		time.Sleep(time.Until(last.Add(limit + 3*time.Millisecond)))
	}
	if err := check(0); err != nil {
		return err
	}
	if !c.Back {
		return nil
	}
	// what was never sent is sent now; late answers reach nobody who has been told
	r.client.SetTimeout(0)
	if e := r.client.Connect("127.0.0.1", r.p.Port); e != nil {
		return fmt.Errorf("connect again: %s", emsg(e))
	}
	conn := r.p.Next()
	if conn == nil {
		return hung("client didn't connect again")
	}
	a := newEcho(conn, c.Wire, c.Tree)
	fresh := &outcomes{}
	if e := r.client.GetDirectory(nil, fresh); e != nil {
		return fmt.Errorf("GetDirectory after connecting again: %s", emsg(e))
	}
	if !soon(func() bool { return fresh.n() > 0 || a.broken() != nil }) {
		return hung("no answer after connecting again")
	}
	if queued {
		// the answer to another request will have reached the root's listener, too
		if !soon(func() bool {
			a.mu.Lock()
			defer a.mu.Unlock()
			return a.autos >= len(ws) || a.bad != nil
		}) {
			return hung("what was queued isn't all sent after connecting again")
		}
	}
	if err := a.fence(); err != nil {
		return err
	}
	if got := fresh.all(); got[0].bad {
		return fmt.Errorf("request after connecting again: %+v", got)
	}
	if !open {
		return check(0)
	}
	// whatever answers may still come, none is an error
	for _, w := range ws {
		for _, x := range w.ear.all() {
			if x.bad {
				return fmt.Errorf("request with timeout %d ms fails with %q", c.T, x.err)
			}
		}
		if queued && !w.q.Tree {
			// asked before the one that has been answered
			if w.ear.n() == 0 {
				return fmt.Errorf("a request made without a connection was answered but its listener not called")
			}
		}
	}
	return nil
}
