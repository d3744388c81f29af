// Package peer is the other end of a client's connection: a scripted Ember+
// provider on the loopback network, with a codec of its own.
package peer

import (
	"net"
	"sync"
	"syscall"
	"time"

	"vpharness/s101"
)

// Patience is how long something that must happen may take.
var Patience = 20 * time.Second

// Conn is one accepted connection.
type Conn struct {
	c      *net.TCPConn
	mu     sync.Mutex // of writes
	events chan s101.Event
	gone   chan struct{}
}

// Peer listens on a port of its own.
type Peer struct {
	l     *net.TCPListener
	Conns chan *Conn
	Port  uint16
	all   []*Conn
	mu    sync.Mutex
	done  sync.WaitGroup
}

// New starts listening.
func New() (*Peer, error) { return NewAt(0) }

// NewAt listens on a given port.
func NewAt(port uint16) (*Peer, error) {
	var l *net.TCPListener
	var err error
	for i := 0; i < 50; i++ {
		l, err = net.ListenTCP("tcp4", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: int(port)})
		if err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		return nil, err
	}
	p := &Peer{l: l, Conns: make(chan *Conn, 1000), Port: uint16(l.Addr().(*net.TCPAddr).Port)}
	p.done.Add(1)
	go func() {
		defer p.done.Done()
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			k := &Conn{c: c, events: make(chan s101.Event, 100000), gone: make(chan struct{})}
			p.mu.Lock()
			p.all = append(p.all, k)
			p.mu.Unlock()
			p.done.Add(1)
			go func() {
				defer p.done.Done()
				k.read()
			}()
			p.Conns <- k
		}
	}()
	return p, nil
}

func (k *Conn) read() {
	defer close(k.gone)
	defer close(k.events)
	var d s101.Decoder
	buf := make([]byte, 65536)
	for {
		n, err := k.c.Read(buf)
		for _, e := range d.Feed(buf[:n]) {
			k.events <- e
		}
		if err != nil {
			if !d.Idle() {
				k.events <- s101.Event{Kind: "cut", Why: "connection ends within a message"}
			}
			return
		}
	}
}

// Events are the frames the client sends; it is closed with the connection.
func (k *Conn) Events() <-chan s101.Event { return k.events }

// Next waits for the client's next connection.
func (p *Peer) Next() *Conn {
	select {
	case k := <-p.Conns:
		return k
	case <-time.After(Patience):
		return nil
	}
}

// Send writes bytes in pieces, pausing between them.
func (k *Conn) Send(b []byte, chunks []int, gaps []int) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		// the first pieces are small, what remains of a long message isn't
		if len(chunks) > 0 && i < 40 {
			n = min(n, chunks[i%len(chunks)])
		}
		if _, err := k.c.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if len(gaps) > 0 && len(b) > 0 {
			if g := gaps[i%len(gaps)]; g > 0 {
				time.Sleep(time.Duration(g) * time.Microsecond)
			}
		}
	}
	return nil
}

// Close hangs up.
func (k *Conn) Close() { _ = k.c.Close() }

// Reset hangs up without ceremony.
func (k *Conn) Reset() {
	_ = k.c.SetLinger(0)
	_ = k.c.Close()
}

// Close ends the peer and all its connections, and waits for them.
func (p *Peer) Close() {
	_ = p.l.Close()
	p.mu.Lock()
	all := p.all
	p.mu.Unlock()
	for _, k := range all {
		k.Reset()
	}
	p.done.Wait()
}

// HalfClose ends what the peer sends; it still receives.
func (k *Conn) HalfClose() { _ = k.c.CloseWrite() }

// ClosedPort is a port nobody listens on, kept so until release is called.
func ClosedPort() (port uint16, release func(), err error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		return 0, nil, err
	}
	if err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		syscall.Close(fd)
		return 0, nil, err
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		syscall.Close(fd)
		return 0, nil, err
	}
	return uint16(sa.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }, nil
}
