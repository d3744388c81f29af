package props

import (
	"context"
	"fmt"
	"net"
	"syscall"
	"time"

	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/glow"
	"vpharness/peer"
	"vpharness/s101"
)

// ---- C25: a provider that reads nothing

type stallCase struct {
	Flood bool // keep-alive requests until the client can send no more
	Asks  int
	T     int // ms
	Two   bool
	Wire  wire
}

func genStall(t *rapid.T) stallCase {
	return stallCase{Flood: rapid.IntRange(0, 3).Draw(t, "flood") > 0, Asks: rapid.IntRange(0, 40).Draw(t, "asks"), T: rapid.IntRange(1, 40).Draw(t, "timeout"), Two: rapid.Bool().Draw(t, "two"), Wire: genWire(t)}
}

// within tells whether a call returns.
func within(what string, f func() error) error {
	done := make(chan error, 1)
	go func() { done <- f() }()
	select {
	case err := <-done:
		return err
	case <-time.After(peer.Patience):
		return hung("%s doesn't return while the provider reads nothing", what)
	}
}

func runStall(c stallCase, o *engine.Obs) error {
	lc := net.ListenConfig{Control: func(_, _ string, raw syscall.RawConn) error {
		return raw.Control(func(fd uintptr) { _ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 2048) })
	}}
	l, err := lc.Listen(context.Background(), "tcp4", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	client := newClient()
	if e := client.Connect("127.0.0.1", uint16(l.Addr().(*net.TCPAddr).Port)); e != nil {
		return fmt.Errorf("connect: %s", emsg(e))
	}
	conn, err := l.Accept()
	if err != nil {
		panic(err)
	}
	defer conn.Close()
	conn.(*net.TCPConn).SetLinger(0)
	if c.Flood {
		o.Label("the client can't send")
		var flood []byte
		for i := 0; i < 1000; i++ {
			flood = append(flood, s101.KeepAlive(s101.Req)...)
		}
		// more than any buffer between the two holds, or until the client stops reading as well
		for sent := 0; sent < 8<<20; sent += len(flood) {
			_ = conn.SetWriteDeadline(time.Now().Add(300 * time.Millisecond))
			if _, err := conn.Write(flood); err != nil {
				o.Label("nor does it read")
				break
			}
		}
	} else {
		o.Trivial()
	}
	client.SetTimeout(c.T)
	var ears []*outcomes
	for i := 0; i < c.Asks; i++ {
		ear := &outcomes{}
		ears = append(ears, ear)
		if err := within("GetDirectory", func() error {
			if e := client.GetDirectory(nil, ear); e != nil {
				return fmt.Errorf("GetDirectory: %s", emsg(e))
			}
			return nil
		}); err != nil {
			return err
		}
	}
	for _, ear := range ears {
		if !soon(func() bool { return ear.n() > 0 }) {
			return hung("no timeout of a request that can't be sent")
		}
	}
	connected := false
	if err := within("IsConnected", func() error { connected = client.IsConnected(); return nil }); err != nil {
		return err
	}
	if !connected {
		return fmt.Errorf("not connected to a provider that reads nothing")
	}
	if err := within("Disconnect", func() error {
		if e := client.Disconnect(); e != nil {
			return fmt.Errorf("disconnect: %s", emsg(e))
		}
		return nil
	}); err != nil {
		return err
	}
	if client.IsConnected() {
		return fmt.Errorf("still connected after disconnecting")
	}
	if e := client.Disconnect(); c.Two && e == nil {
		return fmt.Errorf("disconnecting twice is no error")
	}
	for _, ear := range ears {
		if got := ear.all(); len(got) != 1 || !got[0].bad {
			return fmt.Errorf("request that can't be sent ends with %+v", got)
		}
	}
	// and on to another provider
	p, err := peer.New()
	if err != nil {
		panic(err)
	}
	defer p.Close()
	client.SetTimeout(0)
	if err := within("Connect", func() error {
		if e := client.Connect("127.0.0.1", p.Port); e != nil {
			return fmt.Errorf("connect to another provider: %s", emsg(e))
		}
		return nil
	}); err != nil {
		return err
	}
	defer client.Disconnect()
	k := p.Next()
	if k == nil {
		return hung("client didn't connect to another provider")
	}
	tree := []*glow.Elem{{Kind: glow.Node, Num: probeNum}}
	a := newEcho(k, c.Wire, tree)
	ear := &outcomes{}
	if e := client.GetDirectory(nil, ear); e != nil {
		return fmt.Errorf("GetDirectory of another provider: %s", emsg(e))
	}
	if !soon(func() bool { return ear.n() > 0 || a.broken() != nil }) {
		return hung("another provider's answer doesn't arrive")
	}
	if err := a.fence(); err != nil {
		return err
	}
	// what was queued for the first provider is answered too, all to the same effect
	for _, x := range ear.all() {
		if x.bad {
			return fmt.Errorf("request to another provider ends with %+v", x)
		}
	}
	for _, ear := range ears {
		if len(ear.all()) != 1 {
			return fmt.Errorf("request that timed out is answered as well: %+v", ear.all())
		}
	}
	if got := ear.all(); len(got) == 0 {
		return fmt.Errorf("request to another provider ends with %+v", got)
	}
	return a.broken()
}
