package props

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/dufourgilles/emberlib/socket"
	"pgregory.net/rapid"

	"vpharness/engine"
	"vpharness/s101"
)

// AddrCase connects one client to several addresses in turn.
type AddrCase struct{ Addrs []string }

func genAddr(t *rapid.T) string {
	switch rapid.IntRange(0, 3).Draw(t, "addrClass") {
	case 0:
		return rapid.SampledFrom([]string{"localhost", "127.0.0.1"}).Draw(t, "addr")
	case 1:
		return rapid.SampledFrom([]string{"::1", "[::1]", "0:0:0:0:0:0:0:1", "[0:0::1]", "::ffff:127.0.0.1", "[::ffff:127.0.0.9]"}).Draw(t, "addr")
	}
	return fmt.Sprintf("127.%d.%d.%d", rapid.IntRange(0, 3).Draw(t, "b"), rapid.IntRange(0, 255).Draw(t, "c"), rapid.IntRange(1, 254).Draw(t, "d"))
}

func genAddrCase(t *rapid.T) AddrCase {
	return AddrCase{Addrs: rapid.SliceOfN(rapid.Custom(genAddr), 1, 4).Draw(t, "addrs")}
}

func runAddrCase(c AddrCase, o *engine.Obs) error {
	client := socket.NewS101Client()
	defer client.Disconnect()
	// one listener for each address, all of the same port
	port := 0
	listeners := map[string]*net.TCPListener{}
	defer func() {
		for _, l := range listeners {
			l.Close()
		}
	}()
	var addrs []string
	for _, a := range c.Addrs {
		where, err := net.ResolveTCPAddr("tcp", net.JoinHostPort(strings.Trim(a, "[]"), strconv.Itoa(port)))
		if err != nil {
			o.Label("address not understood here")
			continue
		}
		key := where.IP.String()
		if listeners[key] == nil {
			l, err := net.ListenTCP("tcp", where)
			if err != nil {
				o.Label("address not available here")
				continue
			}
			listeners[key] = l
			port = l.Addr().(*net.TCPAddr).Port
		}
		addrs = append(addrs, a)
	}
	for i, a := range addrs {
		where, _ := net.ResolveTCPAddr("tcp", net.JoinHostPort(strings.Trim(a, "[]"), "0"))
		if strings.Contains(a, ":") {
			o.Label("IPv6 notation")
		}
		if e := client.Connect(a, uint16(port)); e != nil {
			return fmt.Errorf("connecting to %s: %s", a, emsg(e))
		}
		l := listeners[where.IP.String()]
		l.SetDeadline(time.Now().Add(10 * time.Second))
		conn, err := l.Accept()
		if err != nil {
			return fmt.Errorf("connection %d, to %s, doesn't arrive there: %v", i, a, err)
		}
		conn.SetDeadline(time.Now().Add(20 * time.Second))
		conn.Write(s101.KeepAlive(s101.Req))
		want := s101.KeepAlive(s101.Resp)
		got := make([]byte, len(want))
		if _, err := io.ReadFull(conn, got); err != nil || !bytes.Equal(got, want) {
			conn.Close()
			return fmt.Errorf("connection %d, to %s: a keep-alive request is answered by %s (%v)", i, a, hexs(got), err)
		}
		if e := client.Disconnect(); e != nil {
			conn.Close()
			return fmt.Errorf("disconnecting from %s: %s", a, emsg(e))
		}
		conn.Close()
	}
	if len(addrs) < 2 {
		o.Trivial()
	}
	return nil
}
