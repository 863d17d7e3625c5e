// Simulated packet network and event log.
package harness

import (
	"bufio"
	"container/heap"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"net"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- event log ----------

type ev map[string]any

type eventLog struct {
	mu  sync.Mutex
	f   *os.File
	w   *bufio.Writer
	t0  time.Time
	off bool // packet events suppressed
	rt  bool // real time is recorded too
	n   int64
}

var progress atomic.Int64

func (l *eventLog) add(e string, kv ...any) {
	m := ev{"e": e}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	m["t"] = time.Since(l.t0).Microseconds()
	if l.rt {
		m["rt"] = realTime()
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	l.w.Write(b)
	l.w.WriteByte('\n')
	l.w.Flush() // a crash must not lose what happened before it
	progress.Add(1)
}

// ---------- packets ----------

const (
	kConnect = iota
	kServerAnswer
	kClientAnswer
	kConnectDone
	kData
	kAck
	kPing
	kPong
	kDisconnect
	kPunch
)

var kindName = map[int]string{kConnect: "C1", kServerAnswer: "C2", kClientAnswer: "C3", kConnectDone: "C4",
	kData: "D", kData + 0x80: "D", kAck: "A", kPing: "PI", kPong: "PO", kDisconnect: "X", kPunch: "PU"}

type packet struct {
	serial   int
	from, to string // endpoint names
	k        string
	id       int
	split    int
	copy     int // how many times these bytes were sent before (from, to), plus one
	b        []byte
	x        string // "" genuine, "tam" altered, "inj" injected, "rep" replayed by the adversary
	uu       int    // handshake attempt number, 0 if none
}

func parse(b []byte) (k string, id, split int) {
	if len(b) < 4 {
		return "short", 0, 0
	}
	v := binary.LittleEndian.Uint32(b)
	st := int(v >> 24)
	id = int(v & 0xFFFFF)
	k, ok := kindName[st]
	if !ok {
		k = "unk"
	}
	if st == kData+0x80 {
		split = 1
	}
	return
}

// ---------- rules ----------

type rule struct {
	From string   `json:"from"`
	To   string   `json:"to"`
	K    []string `json:"k"`
	Lo   *int     `json:"lo"`   // id range
	Hi   *int     `json:"hi"`   //
	CLo  int      `json:"clo"`  // copy range
	CHi  int      `json:"chi"`  //
	Uu   int      `json:"uu"`   // handshake attempt
	Max  int      `json:"max"`  // at most so many matches
	Skip int      `json:"skip"` // first matches let through to the next rule
	P    float64  `json:"p"`    // probability (0: always)
	Act  string   `json:"act"`  // drop, pass, hold, tamper
	Lat  []int    `json:"lat"`  // latency range, µs
	Dup  []int    `json:"dup"`  // additional copies, latency µs each
	DupN int      `json:"dupn"` // up to so many additional copies at random latency
	Byte int      `json:"byte"` // byte to alter (negative: from the end)
	Also bool     `json:"also"` // tamper: the genuine one is delivered too
	n    int
}

func (r *rule) match(p *packet, seed int64, i int) bool {
	if r.From != "" && r.From != p.from || r.To != "" && r.To != p.to {
		return false
	}
	if len(r.K) > 0 {
		ok := false
		for _, k := range r.K {
			ok = ok || k == p.k
		}
		if !ok {
			return false
		}
	}
	if r.Lo != nil && p.id < *r.Lo || r.Hi != nil && p.id > *r.Hi {
		return false
	}
	if r.CLo != 0 && p.copy < r.CLo || r.CHi != 0 && p.copy > r.CHi {
		return false
	}
	if r.Uu != 0 && r.Uu != p.uu {
		return false
	}
	if r.P != 0 && rnd(seed, p, i) >= r.P {
		return false
	}
	r.n++
	if r.n <= r.Skip {
		return false
	}
	return r.Max == 0 || r.n <= r.Skip+r.Max
}

// rnd is a number in [0,1) fixed by the packet's identity, not by the order of events
func rnd(seed int64, p *packet, salt int) float64 {
	h := fnv.New64a()
	fmt.Fprint(h, seed, p.from, p.to, p.k, p.id, p.copy, p.uu, "/", salt)
	v := h.Sum64()
	v ^= v >> 33
	v *= 0xff51afd7ed558ccd
	v ^= v >> 33
	v *= 0xc4ceb9fe1a85ec53
	v ^= v >> 33
	return float64(v>>11) / (1 << 53)
}

// ---------- network ----------

type delivery struct {
	at  time.Time
	seq int
	p   *packet
}
type dheap []delivery

func (h dheap) Len() int { return len(h) }
func (h dheap) Less(i, j int) bool {
	return h[i].at.Before(h[j].at) || h[i].at.Equal(h[j].at) && h[i].seq < h[j].seq
}
func (h dheap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *dheap) Push(x any)   { *h = append(*h, x.(delivery)) }
func (h *dheap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type network struct {
	mu     sync.Mutex
	log    *eventLog
	seed   int64
	conns  map[string]*fakeConn // by address
	names  map[string]string    // address -> endpoint name
	addrs  map[string]*net.UDPAddr
	rules  []*rule
	held   []*packet
	hist   []*packet
	copies map[string]int
	uuids  map[string]int
	serial int
	q      dheap
	seq    int
	kick   chan struct{}
	keep   bool // keep history
	leak   *leakDetector
	quiet  bool // no packet events
	dead   bool
	looks  map[looks]int // data packets by what they look like
	alike  int           // different packets that look the same
}

type looks struct {
	from string
	h    uint64
}

func (n *network) alikeNow() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.alike
}

func look(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func newNetwork(l *eventLog, seed int64) *network {
	n := &network{log: l, seed: seed, conns: map[string]*fakeConn{}, names: map[string]string{}, addrs: map[string]*net.UDPAddr{},
		copies: map[string]int{}, uuids: map[string]int{}, kick: make(chan struct{}, 1), keep: true}
	go n.loop()
	return n
}

func (n *network) addr(name string) *net.UDPAddr {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.addrLocked(name)
}
func (n *network) addrLocked(name string) *net.UDPAddr {
	a := n.addrs[name]
	if a == nil {
		a = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 10001 + len(n.addrs)}
		n.addrs[name] = a
		n.names[a.String()] = name
	}
	return a
}

func (n *network) nameOf(a net.Addr) string {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.names[a.String()]
}

// loop delivers delayed packets in time order
func (n *network) loop() {
	for {
		n.mu.Lock()
		if n.dead {
			n.mu.Unlock()
			return
		}
		var wait time.Duration = -1
		for n.q.Len() > 0 {
			d := n.q[0]
			if w := time.Until(d.at); w > 0 {
				wait = w
				break
			}
			heap.Pop(&n.q)
			n.put(d.p)
		}
		n.mu.Unlock()
		if wait < 0 {
			<-n.kick
			continue
		}
		t := time.NewTimer(wait)
		select {
		case <-t.C:
		case <-n.kick:
			t.Stop()
		}
	}
}

// put hands a packet to its destination; n.mu is held
func (n *network) put(p *packet) {
	c := n.conns[n.addrLocked(p.to).String()]
	if c == nil || n.dead {
		return
	}
	c.mu.Lock()
	c.in = append(c.in, p)
	c.cond.Signal()
	c.mu.Unlock()
}

// after delivers the packet after the latency; n.mu is held
func (n *network) after(p *packet, lat int) {
	if lat <= 0 {
		n.put(p)
		return
	}
	n.seq++
	heap.Push(&n.q, delivery{time.Now().Add(time.Duration(lat) * time.Microsecond), n.seq, p})
	select {
	case n.kick <- struct{}{}:
	default:
	}
}

func (n *network) send(from string, b []byte, to net.Addr) (int, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.dead {
		return len(b), nil
	}
	p := &packet{from: from, b: append([]byte(nil), b...)}
	var ok bool
	if to != nil {
		p.to, ok = n.names[to.String()]
	}
	if !ok {
		p.to = "?"
	}
	p.k, p.id, p.split = parse(b)
	if len(b) > 65507 {
		n.log.add("toobig", "ep", from, "to", p.to, "k", p.k, "id", p.id, "len", len(b))
		return 0, errors.New("message too long")
	}
	n.serial++
	p.serial = n.serial
	if !n.quiet {
		key := from + p.to + string(b)
		if p.k == "D" {
			key = fmt.Sprint(from, p.to, "D", p.id, "/", len(b), crc(b))
		}
		n.copies[key]++
		p.copy = n.copies[key]
	} else {
		p.copy = p.serial // only makes its fate independent of that of other copies
	}
	switch p.k {
	case "C1", "C2", "C3", "C4":
		if len(b) > 5 && 5+int(b[4]) <= len(b) {
			u := string(b[5 : 5+int(b[4])])
			if n.uuids[u] == 0 {
				n.uuids[u] = len(n.uuids) + 1
			}
			p.uu = n.uuids[u]
		}
	}
	if !n.quiet {
		args := []any{"ep", from, "to", p.to, "k", p.k, "id", p.id, "s", p.split, "c", p.copy, "len", len(b), "n", p.serial, "uu", p.uu}
		if p.k == "D" && len(b) >= 4 {
			args = append(args, "h", strconv.FormatUint(look(b[4:]), 36))
		}
		if n.leak != nil {
			args = append(args, "leak", n.leak.check(p))
		}
		n.log.add("out", args...)
		if n.keep {
			n.hist = append(n.hist, p)
		}
	} else {
		progress.Add(1)
	}
	if n.looks != nil && p.k == "D" {
		l := looks{from, look(b[4:])}
		if id, ok := n.looks[l]; ok && id != p.id {
			n.alike++
		}
		n.looks[l] = p.id
	}
	if p.to == "?" {
		return len(b), nil
	}
	n.fate(p)
	return len(b), nil
}

func crc(b []byte) uint32 {
	h := fnv.New32a()
	h.Write(b)
	return h.Sum32()
}

func (n *network) fate(p *packet) {
	for i, r := range n.rules {
		if !r.match(p, n.seed, i) {
			continue
		}
		lat := 0
		if len(r.Lat) == 1 {
			lat = r.Lat[0]
		} else if len(r.Lat) == 2 {
			lat = r.Lat[0] + int(rnd(n.seed, p, 1000+i)*float64(r.Lat[1]-r.Lat[0]+1))
		}
		switch r.Act {
		case "drop":
			if !n.quiet {
				n.log.add("lost", "ep", p.from, "to", p.to, "k", p.k, "id", p.id, "n", p.serial)
			}
			return
		case "hold":
			n.held = append(n.held, p)
			return
		case "tamper":
			if len(p.b) > 4 {
				q := *p
				q.b = append([]byte(nil), p.b...)
				i := 4 + r.Byte
				if r.Byte < 0 {
					i = len(q.b) + r.Byte
				}
				if i < 4 || i >= len(q.b) {
					i = len(q.b) - 1
				}
				q.b[i] ^= 1 << (uint(p.id+p.copy) % 8)
				q.x = "tam"
				n.after(&q, lat)
			}
			if !r.Also {
				return
			}
		}
		n.after(p, lat)
		for _, d := range r.Dup {
			n.after(p, d)
		}
		for j := 0; j < r.DupN; j++ {
			if rnd(n.seed, p, 2000+10*i+j) < 0.5 {
				hi := 1000
				if len(r.Lat) == 2 {
					hi = r.Lat[1]
				}
				n.after(p, int(rnd(n.seed, p, 3000+10*i+j)*float64(2*hi)))
			}
		}
		return
	}
	n.after(p, 0)
}

// ---------- packet connection ----------

type fakeConn struct {
	n        *network
	name     string
	a        *net.UDPAddr
	mu       sync.Mutex
	cond     *sync.Cond
	in       []*packet
	closed   bool
	slow     int           // how many further datagrams of kind slowK ("": any) are sent slowly,
	busy     time.Duration // each keeping the sender busy for this long after it has left
	slowK    string
	line     int // they go on in groups of this many
	lined    atomic.Int32
	slowAddr atomic.Int64 // µs that LocalAddr takes
}

func (n *network) newConn(name string) *fakeConn {
	n.mu.Lock()
	defer n.mu.Unlock()
	c := &fakeConn{n: n, name: name, a: n.addrLocked(name)}
	c.cond = sync.NewCond(&c.mu)
	n.conns[c.a.String()] = c
	return c
}

func (c *fakeConn) ReadFrom(b []byte) (int, net.Addr, error) {
	c.mu.Lock()
	for len(c.in) == 0 && !c.closed {
		c.cond.Wait()
	}
	if c.closed {
		c.mu.Unlock()
		return 0, nil, net.ErrClosed
	}
	p := c.in[0]
	c.in = c.in[1:]
	c.mu.Unlock()
	if !c.n.quiet {
		k, id, split := parse(p.b)
		h := 0
		if k == "PU" {
			h = int(crc(p.b[4:]) & 0x7fffffff)
		}
		c.n.log.add("in", "ep", c.name, "from", p.from, "k", k, "id", id, "s", split, "n", p.serial, "x", p.x, "uu", p.uu, "c", p.copy, "h", h)
	}
	return copy(b, p.b), c.n.addr(p.from), nil
}

func (c *fakeConn) WriteTo(b []byte, a net.Addr) (int, error) {
	c.mu.Lock()
	closed := c.closed
	c.mu.Unlock()
	if closed {
		return 0, net.ErrClosed
	}
	n, err := c.n.send(c.name, b, a)
	c.mu.Lock()
	k, _, _ := parse(b)
	slow := c.slow > 0 && (c.slowK == "" || c.slowK == k)
	if slow {
		c.slow--
	}
	d, line := c.busy, c.line
	c.mu.Unlock()
	if slow {
		time.Sleep(d)
		if line > 0 { // go on side by side with the others
			at := c.lined.Add(1)
			want := (at + int32(line) - 1) / int32(line) * int32(line)
			for i := 0; i < 1<<20 && c.lined.Load() < want; i++ {
			}
		}
	}
	return n, err
}

func (c *fakeConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed = true
	c.cond.Broadcast()
	return nil
}
func (c *fakeConn) LocalAddr() net.Addr {
	if us := c.slowAddr.Load(); us > 0 {
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
	return c.a
}
func (c *fakeConn) SetDeadline(t time.Time) error      { return nil }
func (c *fakeConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *fakeConn) SetWriteDeadline(t time.Time) error { return nil }
