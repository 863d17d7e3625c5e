// A simulated network for demonstrations: virtual time (testing/synctest),
// addresses 10.0.0.N, and a function which decides when the copies of a
// datagram arrive.
package demo

import (
	"errors"
	"fmt"
	"net"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/teonet-go/tru"
)

type Pkt struct {
	From, To string
	B        []byte
}

// Kind: 0-3 connect, 4 data, 0x84 data with more to come, 5 ack, 6 ping, 7 pong, 8 disconnect, 9 punch
func (p Pkt) Kind() int {
	if len(p.B) < 4 {
		return -1
	}
	return int(p.B[3])
}
func (p Pkt) ID() int {
	return (int(p.B[0]) | int(p.B[1])<<8 | int(p.B[2])<<16) & 0xfffff
}

type Net struct {
	mu    sync.Mutex
	eps   map[string]*conn
	n     int
	Fate  func(p Pkt) []time.Duration // nil: once, after 10 ms
	Slow  func(p Pkt)                 // may wait, the socket is busy meanwhile
	queue []time.Duration
}

type conn struct {
	n      *Net
	a      *net.UDPAddr
	in     chan Pkt
	closed chan struct{}
	once   sync.Once
}

var errClosed = errors.New("closed")

func (c *conn) ReadFrom(b []byte) (int, net.Addr, error) {
	select {
	case p := <-c.in:
		a, _ := net.ResolveUDPAddr("udp", p.From)
		return copy(b, p.B), a, nil
	case <-c.closed:
		time.Sleep(time.Millisecond)
		return 0, nil, errClosed
	}
}
func (c *conn) WriteTo(b []byte, a net.Addr) (int, error) {
	p := Pkt{c.a.String(), a.String(), append([]byte(nil), b...)}
	if c.n.Slow != nil {
		c.n.Slow(p)
	}
	c.n.Send(p)
	return len(b), nil
}
func (c *conn) Close() error                     { c.once.Do(func() { close(c.closed) }); return nil }
func (c *conn) LocalAddr() net.Addr              { return c.a }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

// Send gives a datagram to the network
func (n *Net) Send(p Pkt) {
	n.mu.Lock()
	d := []time.Duration{10 * time.Millisecond}
	if n.Fate != nil {
		d = n.Fate(p)
	}
	n.mu.Unlock()
	for _, t := range d {
		n.Deliver(p, t)
	}
}

// Deliver lets a datagram arrive after a time
func (n *Net) Deliver(p Pkt, after time.Duration) {
	n.mu.Lock()
	n.n++
	after += time.Duration(n.n%100000) * 10 * time.Nanosecond // keeps the order
	n.mu.Unlock()
	time.AfterFunc(after, func() {
		n.mu.Lock()
		c := n.eps[p.To]
		n.mu.Unlock()
		if c == nil {
			return
		}
		select {
		case c.in <- p:
		case <-c.closed:
		}
	})
}

// hook gives the endpoint that is made next an address like 10.0.0.1:1000
func (n *Net) hook(addr string) {
	tru.VerifPacketConn = func(real net.PacketConn) net.PacketConn {
		real.Close()
		a, _ := net.ResolveUDPAddr("udp", addr)
		c := &conn{n: n, a: a, in: make(chan Pkt, 100000), closed: make(chan struct{})}
		n.mu.Lock()
		n.eps[addr] = c
		n.mu.Unlock()
		return c
	}
}

// New makes an endpoint
func (n *Net) New(addr string, params ...any) *tru.Tru {
	n.hook(addr)
	t, err := tru.New(0, append(params, "none")...)
	if err != nil {
		fail("new:", err)
	}
	return t
}

// Connect connects or fails
func Connect(t *tru.Tru, addr string, r ...tru.ReaderFunc) *tru.Channel {
	ch, err := t.Connect(addr, r...)
	if err != nil {
		fail("connect:", err)
	}
	return ch
}

func fail(a ...any) {
	fmt.Println(append([]any{"FAIL:"}, a...)...)
	os.Exit(1)
}

func check(ok bool, a ...any) {
	if !ok {
		fail(a...)
	}
}

func eventually(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// at runs f with a lock
var logMu sync.Mutex

func locked(f func()) { logMu.Lock(); defer logMu.Unlock(); f() }

func TestDemo(t *testing.T) {
	time.AfterFunc(240*time.Second, func() { fail("the demonstration hangs") })
	synctest.Test(t, func(t *testing.T) {
		demo(&Net{eps: map[string]*conn{}})
		fmt.Println("ok")
		os.Exit(0)
	})
}
