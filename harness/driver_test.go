// Scenario driver: executes scripts against the real tru code in virtual time
// and records what happens.
package harness

import (
	"bufio"
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/teonet-go/tru"
)

const callLimit = 30 * time.Second // virtual time a call may take

type on struct {
	Ep    string `json:"ep"`
	Ch    string `json:"ch"`
	Where string `json:"where"` // c (channel reader), g (common reader), dlv, conn, punch
	Ev    string `json:"ev"`    // msg, err
	Nth   []int  `json:"nth"`   // occurrences (1..); empty: every one
	Max   int    `json:"max"`
	Do    []op   `json:"do"`
	n     int
}

type op struct {
	Op     string  `json:"op"`
	Ep     string  `json:"ep"`
	To     string  `json:"to"`
	From   string  `json:"from"`
	Ch     string  `json:"ch"`
	L      string  `json:"l"`
	Reader string  `json:"reader"` // none, true, false: answer of the reader
	NoConn bool    `json:"noconn"` // no connect callback
	NoPun  bool    `json:"nopun"`  // no punch callback
	Maxlen int     `json:"maxlen"`
	MaxPar int     `json:"maxpar"` // maximum packet length given to New
	Async  bool    `json:"async"`
	Len    int     `json:"len"`
	Lens   []int   `json:"lens"`
	N      int     `json:"n"`
	Cb     bool    `json:"cb"`
	Tmo    int     `json:"tmo"` // ms
	Gap    int     `json:"gap"` // µs
	Kind   string  `json:"kind"`
	Us     int     `json:"us"`
	Ms     int     `json:"ms"`
	K      string  `json:"k"`
	Id     int     `json:"id"`
	Nth    int     `json:"nth"`
	Lat    int     `json:"lat"`
	Keep   bool    `json:"keep"`
	Hex    string  `json:"hex"`
	Cut    int     `json:"cut"`
	Flip   int     `json:"flip"`
	Rules  []*rule `json:"rules"`
	Add    bool    `json:"add"`
	Text   string  `json:"text"`
	Off    bool    `json:"off"`
	Uu     int     `json:"uu"`
	Stat   bool    `json:"stat"` // New starts the printed statistic
	Go     [][]op  `json:"go"`   // what goroutines do at once
}

type scenario struct {
	Id    string `json:"id"`
	Prop  string `json:"prop"`
	Seed  int64  `json:"seed"`
	Leak  bool   `json:"leak"`
	Multi bool   `json:"multi"` // reads are told apart by their content
	Ops   []op   `json:"ops"`
	On    []*on  `json:"on"`
	Print bool   `json:"print"` // what is written to the standard output is recorded
	Real  bool   `json:"real"`  // events carry real time
}

type msgRef struct {
	ch string
	m  int
}

type drv struct {
	sc      *scenario
	log     *eventLog
	net     *network
	mu      sync.Mutex
	kept    []keptData // messages handed over
	keptLen int
	tru     map[string]*tru.Tru
	ch      map[string]*tru.Channel
	name    map[*tru.Channel]string
	pend    map[string]string // ep>peer -> name of the channel being connected
	nsrv    map[string]int
	nacc    map[string]int      // accepted connections per listener and peer
	sent    map[string]int      // messages per sending channel
	reg     map[string][]msgRef // content -> messages
	head    map[string]msgRef   // first 8 bytes -> message (length 12 or more)
	body    map[msgRef][]byte
	got     map[string]map[msgRef]bool // per receiving channel and level
	wg      sync.WaitGroup
	next    string // name of the endpoint being created
	lis     map[string]net.Listener
	conn    map[string]net.Conn
	rd      map[string]*readState
	bulk    *bulkState
	calls   int
	scr     *screen
}

func newDrv(sc *scenario, w *os.File) *drv {
	l := &eventLog{f: w, w: bufio.NewWriterSize(w, 1<<16), t0: time.Now(), rt: sc.Real}
	d := &drv{sc: sc, log: l, net: newNetwork(l, sc.Seed), tru: map[string]*tru.Tru{}, ch: map[string]*tru.Channel{},
		name: map[*tru.Channel]string{}, pend: map[string]string{}, nsrv: map[string]int{}, nacc: map[string]int{}, sent: map[string]int{},
		reg: map[string][]msgRef{}, head: map[string]msgRef{}, body: map[msgRef][]byte{}, got: map[string]map[msgRef]bool{},
		lis: map[string]net.Listener{}, conn: map[string]net.Conn{}, rd: map[string]*readState{}}
	if sc.Leak {
		d.net.leak = newLeakDetector()
	}
	tru.VerifPacketConn = func(o net.PacketConn) net.PacketConn {
		o.Close()
		return d.net.newConn(d.next)
	}
	return d
}

// ---------- message content ----------

func (d *drv) makeMsg(ch string, n int, kind string) (m int, b []byte) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.sent[ch]++
	m = d.sent[ch]
	b = make([]byte, n)
	switch kind {
	case "same": // the same for every message of this length
		rand.New(rand.NewSource(int64(n))).Read(b)
	case "zero":
	default:
		rand.New(rand.NewSource(d.sc.Seed*7919 + int64(m)*104729 + int64(crc([]byte(ch))))).Read(b)
	}
	r := msgRef{ch, m}
	d.reg[string(b)] = append(d.reg[string(b)], r)
	if n >= 12 && kind == "" {
		d.head[string(b[:8])] = r
	}
	d.body[r] = append([]byte(nil), b...)
	if d.net.leak != nil {
		d.net.mu.Lock()
		d.net.leak.learn(b)
		d.net.mu.Unlock()
	}
	return
}

// ident finds out which message b is
func (d *drv) ident(key string, b []byte) (r msgRef, ok bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	g := d.got[key]
	if g == nil {
		g = map[msgRef]bool{}
		d.got[key] = g
	}
	src := ""
	for x := range g {
		src = x.ch
		break
	}
	cand := d.reg[string(b)]
	if len(cand) == 0 {
		if len(b) >= 8 {
			if x, found := d.head[string(b[:8])]; found {
				return x, false
			}
		}
		return msgRef{"", 0}, false
	}
	best := -1
	for i, c := range cand {
		if src != "" && c.ch != src {
			continue
		}
		if !g[c] {
			best = i
			break
		}
	}
	if best < 0 {
		best = len(cand) - 1
	}
	g[cand[best]] = true
	return cand[best], true
}

// candidates lists all messages with this content if there are several
func (d *drv) candidates(b []byte) (out [][2]any) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if c := d.reg[string(b)]; len(c) > 1 {
		for _, r := range c {
			out = append(out, [2]any{r.ch, r.m})
		}
	}
	return
}

// ---------- names ----------

func errName(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, tru.ErrChannelDestroyed):
		return "destroyed"
	case errors.Is(err, tru.ErrTruClosed):
		return "closed"
	case errors.Is(err, tru.ErrChannelAlreadyDestroyed):
		return "already"
	case errors.Is(err, io.EOF):
		return "eof"
	case strings.Contains(err.Error(), "delivery timeout"):
		return "timeout"
	}
	return "err"
}

// chName names a channel object seen at endpoint ep
func (d *drv) chName(ep string, c *tru.Channel) string {
	if c == nil {
		return ""
	}
	peer := d.net.nameOf(c.Addr())
	d.mu.Lock()
	defer d.mu.Unlock()
	if n, ok := d.name[c]; ok {
		return n
	}
	n := ""
	if !c.ServerMode() {
		n = d.pend[ep+">"+peer]
		if n != "" {
			if old := d.ch[n]; old != nil && old != c {
				n = ""
			}
		}
	}
	if n == "" {
		k := ep + "<" + peer
		if !c.ServerMode() {
			k = ep + ">" + peer
		}
		d.nsrv[k]++
		n = fmt.Sprintf("%s#%d", k, d.nsrv[k])
	}
	d.name[c] = n
	d.ch[n] = c
	return n
}

func (d *drv) getCh(name string) *tru.Channel {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.ch[name]
}

// ---------- callbacks ----------

func (d *drv) fire(ep, ch, where, evk string) {
	d.mu.Lock()
	ons := d.sc.On
	d.mu.Unlock()
	for _, o := range ons {
		if o.Where != where || o.Ep != "" && o.Ep != ep || o.Ch != "" && o.Ch != ch || o.Ev != "" && o.Ev != evk {
			continue
		}
		d.mu.Lock()
		o.n++
		n := o.n
		d.mu.Unlock()
		hit := len(o.Nth) == 0
		for _, k := range o.Nth {
			hit = hit || k == n
		}
		if o.Max > 0 && n > o.Max {
			hit = false
		}
		if !hit {
			continue
		}
		for _, x := range o.Do {
			if x.Ch == "@" {
				x.Ch = ch
			}
			d.do(x, true)
		}
	}
}

// keep remembers the data of a message, which should stay as it is from now on
func (d *drv) keep(b []byte) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.keptLen += len(b); d.keptLen < 32<<20 {
		d.kept = append(d.kept, keptData{b, crc32.ChecksumIEEE(b)})
	}
}

// altered returns how many of the messages handed over were changed afterwards
func (d *drv) altered() (n int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, k := range d.kept {
		if crc32.ChecksumIEEE(k.b) != k.sum {
			n++
		}
	}
	return
}

type keptData struct {
	b   []byte
	sum uint32
}

func (d *drv) reader(ep, lvl, ans string, named string) tru.ReaderFunc {
	return func(c *tru.Channel, pac *tru.Packet, err error) bool {
		if named != "" && c != nil {
			d.mu.Lock()
			if _, ok := d.name[c]; !ok {
				d.name[c] = named
				d.ch[named] = c
			}
			d.mu.Unlock()
		}
		n := d.chName(ep, c)
		if err != nil {
			d.log.add("rerr", "ep", ep, "ch", n, "lvl", lvl, "err", errName(err))
			d.fire(ep, n, lvl, "err")
			return ans == "true"
		}
		b := pac.Data()
		ans := ans == "true" || ans == "mix" && len(b)%2 == 0
		if bs := d.bulk; bs != nil && bs.ch == n && lvl == bs.lvl {
			bs.recv(pac.ID(), b)
			return ans
		}
		r, ok := d.ident(n+"/"+lvl, b)
		alt := d.candidates(b)
		d.keep(b)
		d.log.add("msg", "alt", alt, "ep", ep, "ch", n, "lvl", lvl, "src", r.ch, "m", r.m, "ok", ok, "id", pac.ID(), "len", len(b), "ans", ans)
		d.fire(ep, n, lvl, "msg")
		return ans
	}
}

// punch returns the w-th punch callback of an endpoint
func (d *drv) punch(ep string, w int) tru.PunchFunc {
	return func(a net.Addr, b []byte) {
		d.log.add("punch", "ep", ep, "from", d.net.nameOf(a), "h", int(crc(b)&0x7fffffff), "len", len(b), "w", w)
		d.fire(ep, "", "punch", "")
	}
}

// ---------- operations ----------

// limit runs f and reports it stuck if it does not return in time
func (d *drv) limit(inCb, async bool, what string, f func()) {
	stuck := time.AfterFunc(callLimit, func() { d.log.add("stuck", "c", what, "cb", inCb) })
	if inCb {
		f()
		stuck.Stop()
		return
	}
	done := make(chan struct{})
	d.wg.Add(1)
	go func() {
		defer d.wg.Done()
		f()
		stuck.Stop()
		close(done)
	}()
	if async {
		return
	}
	select {
	case <-done:
	case <-time.After(callLimit + time.Millisecond):
	}
}

func (d *drv) do(o op, cb bool) {
	switch o.Op {

	case "new":
		var params []any
		if o.Reader != "" && o.Reader != "none" {
			params = append(params, d.reader(o.Ep, "g", o.Reader, ""))
		}
		if !o.NoConn {
			ep := o.Ep
			params = append(params, tru.ConnectFunc(func(c *tru.Channel, err error) {
				n := d.chName(ep, c)
				d.log.add("conncb", "ep", ep, "ch", n, "peer", d.net.nameOf(c.Addr()), "err", errName(err), "srv", c.ServerMode())
				d.fire(ep, n, "conn", "")
			}))
		}
		if !o.NoPun {
			params = append(params, d.punch(o.Ep, 1))
		}
		if o.Stat {
			params = append(params, tru.Stat(true))
		}
		if o.MaxPar != 0 {
			params = append(params, tru.MaxDataLenType(o.MaxPar))
		}
		d.next = o.Ep
		t, err := tru.New(0, params...)
		if err != nil {
			d.log.add("new", "ep", o.Ep, "err", errName(err))
			return
		}
		if o.Maxlen != 0 {
			t.SetMaxDataLen(o.Maxlen)
		}
		d.mu.Lock()
		d.tru[o.Ep] = t
		d.mu.Unlock()
		d.log.add("new", "ep", o.Ep, "err", "", "reader", o.Reader, "maxlen", o.Maxlen, "stat", o.Stat)

	case "newbad": // cannot be made
		d.next = o.Ep
		_, err := tru.New(0, tru.Stat(o.Stat), struct{}{})
		d.log.add("newbad", "ok", err != nil)

	case "print":
		t := d.tru[o.Ep]
		d.limit(cb, o.Async, "print", func() {
			q := d.call("print", "ep", o.Ep)
			t.StatisticPrint()
			d.log.add("ret", "q", q, "c", "print", "ep", o.Ep, "err", "")
		})

	case "noprint":
		t := d.tru[o.Ep]
		d.limit(cb, o.Async, "noprint", func() {
			q := d.call("noprint", "ep", o.Ep)
			t.StatisticPrintStop()
			d.look()
			d.log.add("ret", "q", q, "c", "noprint", "ep", o.Ep, "err", "")
		})

	case "printing":
		d.log.add("printing", "ep", o.Ep, "v", d.tru[o.Ep].StatisticPrintRunning())

	case "minilog":
		d.log.add("minilog", "ep", o.Ep, "v", d.tru[o.Ep].StatisticMinilog())

	case "slowaddr": // asking for the own address takes time
		d.net.mu.Lock()
		c := d.net.conns[d.net.addrLocked(o.Ep).String()]
		d.net.mu.Unlock()
		c.slowAddr.Store(int64(o.Us))

	case "slow": // each of the next n datagrams the endpoint sends keeps its socket busy for a while
		d.net.mu.Lock()
		c := d.net.conns[d.net.addrLocked(o.Ep).String()]
		d.net.mu.Unlock()
		c.mu.Lock()
		c.slow, c.busy, c.slowK, c.line = o.N, time.Duration(o.Us)*time.Microsecond, o.K, o.Nth
		c.mu.Unlock()

	case "setpunch": // another punch callback
		if !cb {
			synctest.Wait()
		}
		d.log.add("setpunch", "ep", o.Ep, "w", o.N)
		if o.N == 0 {
			d.tru[o.Ep].SetPunchCb(nil)
		} else {
			d.tru[o.Ep].SetPunchCb(d.punch(o.Ep, o.N))
		}

	case "connect":
		t := d.tru[o.Ep]
		d.mu.Lock()
		d.pend[o.Ep+">"+o.To] = o.Ch
		d.mu.Unlock()
		d.limit(cb, o.Async, "connect", func() {
			q := d.call("connect", "ep", o.Ep, "to", o.To, "ch", o.Ch, "reader", o.Reader)
			var c *tru.Channel
			var err error
			a := d.net.addr(o.To).String()
			if o.Reader != "" && o.Reader != "none" {
				c, err = t.Connect(a, d.reader(o.Ep, "c", o.Reader, o.Ch))
			} else {
				c, err = t.Connect(a)
			}
			if err == nil && c != nil {
				d.mu.Lock()
				d.name[c] = o.Ch
				d.ch[o.Ch] = c
				d.mu.Unlock()
			}
			d.log.add("ret", "q", q, "c", "connect", "ep", o.Ep, "to", o.To, "ch", o.Ch, "err", errName(err), "nil", c == nil)
		})

	case "write":
		lens := o.Lens
		if len(lens) == 0 {
			n := o.N
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				lens = append(lens, o.Len)
			}
		}
		c := d.getCh(o.Ch)
		if c == nil {
			d.log.add("nochan", "ch", o.Ch)
			return
		}
		d.limit(cb, o.Async, "write", func() {
			for i, l := range lens {
				d.write(c, o, l)
				if o.Gap > 0 && i+1 < len(lens) {
					time.Sleep(time.Duration(o.Gap) * time.Microsecond)
				}
			}
		})

	case "close":
		c := d.getCh(o.Ch)
		if c == nil {
			d.log.add("nochan", "ch", o.Ch)
			return
		}
		d.limit(cb, o.Async, "close", func() {
			q := d.call("close", "ch", o.Ch)
			c.Close()
			d.log.add("ret", "q", q, "c", "close", "ch", o.Ch, "err", "")
		})

	case "destroyed":
		if c := d.getCh(o.Ch); c != nil {
			d.limit(cb, o.Async, "destroyed", func() {
				q := d.call("destroyed", "ch", o.Ch)
				d.log.add("destroyed", "q", q, "ch", o.Ch, "v", c.Destroyed())
			})
		}

	case "closeep":
		t := d.tru[o.Ep]
		d.limit(cb, o.Async, "closeep", func() {
			q := d.call("closeep", "ep", o.Ep)
			t.Close()
			d.log.add("ret", "q", q, "c", "closeep", "ep", o.Ep, "err", "")
		})

	case "stat":
		t := d.tru[o.Ep]
		d.limit(cb, o.Async, "stat", func() {
			q := d.call("stat", "ep", o.Ep)
			st := t.Statistic()
			peers := []string{}
			for _, s := range st {
				peers = append(peers, d.addrName(s.Addr))
			}
			d.log.add("statn", "q", q, "ep", o.Ep, "n", len(st), "cb", cb, "peers", peers)
			if cb {
				return
			}
			for _, s := range st {
				peer := d.addrName(s.Addr)
				d.log.add("stat", "ep", o.Ep, "peer", peer, "send", s.Send, "rsnd", s.Rsnd, "ack", s.Ack, "ackd", s.AckD,
					"recv", s.Recv, "drop", s.Drop, "sq", s.SQ, "rq", s.RQ, "rta", s.RTA, "tt", int(s.TT*1000+0.5), "ssec", s.Ssec, "rsec", s.Rsec)
			}
		})

	case "chans":
		t := d.tru[o.Ep]
		d.limit(cb, o.Async, "chans", func() {
			q := d.call("chans", "ep", o.Ep)
			var ns []string
			t.ForEachChannel(func(c *tru.Channel) {
				n := d.chName(o.Ep, c)
				ns = append(ns, n)
				switch o.Kind { // what is done with each of them
				case "close":
					d.do(op{Op: "close", Ch: n}, true)
				case "write":
					d.do(op{Op: "write", Ch: n, Len: 20}, true)
				case "stat":
					d.do(op{Op: "stat", Ep: o.Ep}, true)
				}
			})
			if ns == nil {
				ns = []string{}
			}
			d.log.add("chans", "q", q, "ep", o.Ep, "n", len(ns), "chs", ns)
		})

	case "triptime":
		if c := d.getCh(o.Ch); c != nil {
			d.log.add("triptime", "ch", o.Ch, "us", c.Triptime().Microseconds())
		}

	case "sleep":
		time.Sleep(time.Duration(o.Ms)*time.Millisecond + time.Duration(o.Us)*time.Microsecond)

	case "q":
		synctest.Wait()
		d.log.add("q")

	case "mark":
		d.log.add("mark", "text", o.Text)

	case "join":
		done := make(chan struct{})
		go func() { d.wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(callLimit + time.Second):
		}

	case "net":
		d.net.mu.Lock()
		if !o.Add {
			d.net.rules = nil
		}
		d.net.rules = append(append([]*rule{}, o.Rules...), d.net.rules...)
		d.net.mu.Unlock()

	case "deliver", "dropheld":
		d.heldOp(o)

	case "await":
		// wait until a matching packet is held
		dl := time.Now().Add(time.Duration(o.Ms) * time.Millisecond)
		for {
			synctest.Wait()
			if d.findHeld(o) >= 0 {
				return
			}
			if time.Now().After(dl) {
				d.log.add("noawait", "k", o.K, "id", o.Id)
				return
			}
			time.Sleep(5 * time.Millisecond)
		}

	case "release":
		d.net.mu.Lock()
		for _, p := range d.net.held {
			d.net.put(p)
		}
		d.net.held = nil
		d.net.mu.Unlock()

	case "replay":
		// repeat a packet sent before, possibly altered, possibly from elsewhere
		d.net.mu.Lock()
		var c []*packet
		for _, p := range d.net.hist {
			if (o.From == "" || p.from == o.From) && (o.To == "" || p.to == o.To) && (o.K == "" || p.k == o.K) && (o.Id < 0 || p.k != "D" && p.k != "A" || p.id == o.Id) && (o.Uu == 0 || p.uu == o.Uu) {
				c = append(c, p)
			}
		}
		if len(c) == 0 {
			d.net.mu.Unlock()
			d.log.add("noreplay", "k", o.K)
			return
		}
		i := o.Nth
		if i < 0 {
			i += len(c)
		}
		if i < 0 || i >= len(c) {
			i = len(c) - 1
		}
		q := *c[i]
		q.b = append([]byte(nil), q.b...)
		q.x = "rep"
		if o.Ep != "" { // another sender address
			q.from = o.Ep
			d.net.addrLocked(o.Ep)
			q.x = "inj"
		}
		if o.L != "" {
			q.to = o.L
			q.x = "inj"
		}
		if o.Cut != 0 && len(q.b) > 4 {
			l := o.Cut
			if l < 0 {
				l += len(q.b)
			}
			if l < 0 {
				l = 0
			}
			if l < len(q.b) {
				q.b = q.b[:l]
			}
			q.x = "inj"
		}
		if o.Flip > 0 && len(q.b) > 4 {
			q.b[4+(o.Flip-1)%(len(q.b)-4)] ^= 0x55
			q.x = "tam"
		}
		n := o.N
		if n == 0 {
			n = 1
		}
		for j := 0; j < n; j++ {
			d.net.after(&q, o.Lat)
		}
		d.net.mu.Unlock()

	case "inject":
		b, err := hex.DecodeString(o.Hex)
		if err != nil {
			panic(err)
		}
		d.net.mu.Lock()
		d.net.addrLocked(o.From)
		k, id, s := parse(b)
		n := o.N
		if n == 0 {
			n = 1
		}
		for j := 0; j < n; j++ {
			d.net.after(&packet{from: o.From, to: o.To, b: b, x: "inj", k: k, id: id, split: s}, o.Lat)
		}
		d.net.mu.Unlock()

	case "punchto":
		t := d.tru[o.Ep]
		d.limit(cb, o.Async, "punchto", func() {
			m, b := d.makeMsg("punch:"+o.Ep+">"+o.To, o.Len, o.Kind)
			q := d.call("punchto", "ep", o.Ep, "to", o.To, "m", m, "len", o.Len)
			var err error
			if o.Kind == "str" {
				_, err = t.WriteToPunch(b, d.net.addr(o.To).String())
			} else {
				_, err = t.WriteToPunch(b, d.net.addr(o.To))
			}
			d.log.add("ret", "q", q, "c", "punchto", "ep", o.Ep, "to", o.To, "m", m, "err", errName(err))
		})

	case "bulk":
		d.doBulk(o)

	case "storm":
		d.storm(o)

	case "listen", "accept", "dial", "nread", "nwrite", "nclose", "lclose", "laddr":
		d.netOp(o, cb)

	default:
		panic("unknown op " + o.Op)
	}
}

// call records the beginning of a call; its result refers to the number
func (d *drv) call(c string, kv ...any) int {
	d.mu.Lock()
	d.calls++
	q := d.calls
	d.mu.Unlock()
	d.log.add("call", append([]any{"c", c, "q", q}, kv...)...)
	return q
}

func (d *drv) addrName(a string) string {
	d.net.mu.Lock()
	defer d.net.mu.Unlock()
	return d.net.names[a]
}

func (d *drv) write(c *tru.Channel, o op, l int) {
	m, b := d.makeMsg(o.Ch, l, o.Kind)
	var dl []any
	if o.Cb {
		dl = append(dl, tru.PacketDeliveryFunc(func(pac *tru.Packet, err error) {
			d.log.add("dlv", "ch", o.Ch, "m", m, "err", errName(err))
			d.fire("", o.Ch, "dlv", "")
		}))
	}
	if o.Tmo != 0 {
		dl = append(dl, time.Duration(o.Tmo)*time.Millisecond)
	}
	if o.Kind == "badparam" {
		dl = append(dl, "wrong")
	}
	q := d.call("write", "ch", o.Ch, "m", m, "len", l, "cb", o.Cb, "tmo", o.Tmo)
	id, err := c.WriteTo(b, dl...)
	for i := range b { // the caller may reuse its buffer
		b[i] = 0xEE
	}
	d.log.add("ret", "q", q, "c", "write", "ch", o.Ch, "m", m, "id", id, "err", errName(err))
}

func (d *drv) findHeld(o op) int {
	d.net.mu.Lock()
	defer d.net.mu.Unlock()
	n := 0
	for i, p := range d.net.held {
		if (o.From == "" || p.from == o.From) && (o.To == "" || p.to == o.To) && (o.K == "" || p.k == o.K) && (o.Id < 0 || p.id == o.Id) && (o.Uu == 0 || p.uu == o.Uu) {
			if n == o.Nth {
				return i
			}
			n++
		}
	}
	return -1
}

func (d *drv) heldOp(o op) {
	i := d.findHeld(o)
	if i < 0 {
		d.log.add("noheld", "k", o.K, "id", o.Id)
		return
	}
	d.net.mu.Lock()
	p := d.net.held[i]
	if !o.Keep {
		d.net.held = append(d.net.held[:i:i], d.net.held[i+1:]...)
	}
	if o.Op == "deliver" {
		d.net.put(p)
	}
	d.net.mu.Unlock()
}

// ---------- bulk traffic (long streams): checked here, reported as one event ----------

type bulkState struct {
	ch, lvl string
	next    uint64 // next sequence number expected
	bad     int
	got     int
	mu      sync.Mutex
	lastID  int
	same    bool
}

const sameText = "the same message again"

func (s *bulkState) recv(id int, b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got++
	s.lastID = id
	if s.same {
		if string(b) != sameText {
			s.bad++
		}
		return
	}
	if len(b) != 12 || binary.LittleEndian.Uint64(b) != s.next || binary.LittleEndian.Uint32(b[8:]) != uint32(s.next*2654435761) {
		s.bad++
	}
	s.next++
}

// doBulk sends o.N messages on o.Ch to channel o.L, waiting now and then, and
// reports how many were handed over in order
func (d *drv) doBulk(o op) {
	c := d.getCh(o.Ch)
	lvl := o.K
	if lvl == "" {
		lvl = "g"
	}
	bs := &bulkState{ch: o.L, lvl: lvl, same: o.Kind == "same"}
	d.bulk = bs
	d.net.mu.Lock()
	d.net.quiet = true
	if bs.same {
		d.net.looks, d.net.alike = map[looks]int{}, 0
	}
	d.net.mu.Unlock()
	errs := 0
	first, last, refused := -1, -1, -1
	b := make([]byte, 12)
	every := o.Nth
	if every == 0 {
		every = 64
	}
	for i := 0; i < o.N; i++ {
		if bs.same {
			b = []byte(sameText)
		} else {
			binary.LittleEndian.PutUint64(b, uint64(i))
			binary.LittleEndian.PutUint32(b[8:], uint32(uint64(i)*2654435761))
		}
		id, err := c.WriteTo(b)
		if err != nil {
			errs++
			if refused < 0 {
				refused = last
			}
			if o.Kind == "stop" {
				break
			}
		} else {
			if first < 0 {
				first = id
			}
			last = id
		}
		if i%every == every-1 {
			time.Sleep(time.Duration(o.Us+1) * time.Microsecond)
		}
	}
	if len(o.Rules) > 0 { // the network changes before the messages are counted
		d.net.mu.Lock()
		d.net.rules = o.Rules
		d.net.mu.Unlock()
	}
	time.Sleep(time.Duration(o.Ms)*time.Millisecond + time.Millisecond)
	synctest.Wait()
	bs.mu.Lock()
	got, bad := bs.got, bs.bad
	bs.mu.Unlock()
	d.log.add("bulk", "ch", o.Ch, "to", o.L, "n", o.N, "errs", errs, "got", got, "bad", bad, "first", first, "last", last, "refused", refused, "alike", d.net.alikeNow())
	d.net.mu.Lock()
	d.net.looks = nil
	d.net.quiet = false
	d.net.mu.Unlock()
	if !o.Keep {
		d.bulk = nil
	}
}

// ---------- net.Conn and net.Listener ----------

type readState struct {
	eofs int
	cur  []byte
	src  string
}

// places returns where in the messages of src the bytes occur: message and offset
func (d *drv) places(src string, b []byte) (at [][]int) {
	at = [][]int{}
	for m := 1; ; m++ {
		w, ok := d.body[msgRef{src, m}]
		if !ok {
			return
		}
		for i := 0; i+len(b) <= len(w); i++ {
			if bytes.Equal(w[i:i+len(b)], b) {
				at = append(at, []int{m, i})
				if len(at) == 60 {
					return
				}
			}
		}
	}
}

func (d *drv) netOp(o op, cb bool) {
	switch o.Op {
	case "listen":
		d.next = o.Ep
		l, err := tru.Listen("tru", ":0")
		if err == nil && l != nil {
			d.mu.Lock()
			d.lis[o.L] = l
			d.mu.Unlock()
		}
		d.log.add("ret", "c", "listen", "l", o.L, "ep", o.Ep, "err", errName(err))
	case "laddr":
		d.limit(cb, o.Async, "laddr", func() {
			a := d.lis[o.L].Addr()
			s := ""
			if a != nil {
				s = d.addrName(a.String())
			}
			d.log.add("laddr", "l", o.L, "ep", s)
		})
	case "accept":
		l := d.lis[o.L]
		if l == nil {
			return
		}
		d.limitNo(cb, o.Async, func() {
			q := d.call("accept", "l", o.L)
			c, err := l.Accept()
			name, peer := "", ""
			if err == nil && c != nil {
				d.mu.Lock()
				if c.RemoteAddr() != nil {
					peer = d.net.nameOf(c.RemoteAddr())
				}
				k := o.L + "<" + peer
				d.nacc[k]++
				name = fmt.Sprintf("%s#%d", k, d.nacc[k])
				d.conn[name] = c
				d.mu.Unlock()
			}
			d.log.add("ret", "q", q, "c", "accept", "l", o.L, "conn", name, "err", errName(err), "nil", c == nil, "peer", peer, "local", d.localName(c))
		})
	case "dial":
		d.next = o.Ep
		d.limit(cb, o.Async, "dial", func() {
			q := d.call("dial", "conn", o.Ch, "ep", o.Ep, "to", o.To)
			c, err := tru.Dial("tru", d.net.addr(o.To).String())
			peer := ""
			if err == nil && c != nil {
				d.mu.Lock()
				d.conn[o.Ch] = c
				if c.RemoteAddr() != nil {
					peer = d.net.nameOf(c.RemoteAddr())
				}
				d.mu.Unlock()
			}
			d.log.add("ret", "q", q, "c", "dial", "conn", o.Ch, "ep", o.Ep, "to", o.To, "err", errName(err), "nil", c == nil, "peer", peer, "local", d.localName(c))
		})
	case "nwrite":
		c := d.getConn(o.Ch)
		if c == nil {
			return
		}
		d.limit(cb, o.Async, "nwrite", func() {
			lens := o.Lens
			if len(lens) == 0 {
				lens = []int{o.Len}
			}
			for _, l := range lens {
				m, b := d.makeMsg(o.Ch, l, o.Kind)
				q := d.call("nwrite", "conn", o.Ch, "m", m, "len", l)
				k, err := c.Write(b)
				for i := range b {
					b[i] = 0xEE
				}
				d.log.add("ret", "q", q, "c", "nwrite", "conn", o.Ch, "m", m, "n", k, "err", errName(err))
				if o.Gap > 0 {
					time.Sleep(time.Duration(o.Gap) * time.Microsecond)
				}
			}
		})
	case "nread":
		// o.L names the sending channel; o.N reads (-1: until an error other than EOF)
		c := d.getConn(o.Ch)
		if c == nil {
			return
		}
		src := o.L
		d.limitNo(cb, o.Async, func() {
			for i := 0; o.N < 0 || i < o.N; i++ {
				l := o.Len
				if len(o.Lens) > 0 {
					l = o.Lens[i%len(o.Lens)]
				}
				buf := make([]byte, l)
				q := d.call("nread", "conn", o.Ch, "buf", l)
				n, err := c.Read(buf)
				d.mu.Lock()
				rs := d.rd[o.Ch]
				if rs == nil {
					rs = &readState{}
					d.rd[o.Ch] = rs
				}
				ok := n >= 0 && n <= l
				if ok {
					rs.cur = append(rs.cur, buf[:n]...)
				}
				want := d.body[msgRef{src, rs.eofs + 1}]
				ok = ok && bytes.HasPrefix(want, rs.cur)
				if err == io.EOF {
					rs.eofs++
					rs.cur = nil
				}
				at := [][]int{}
				if d.sc.Multi {
					ok = n >= 0 && n <= l
					if ok && n > 0 {
						at = d.places(src, buf[:n])
					}
				}
				d.mu.Unlock()
				d.log.add("ret", "q", q, "c", "nread", "conn", o.Ch, "n", n, "err", errName(err), "ok", ok, "at", at)
				if err != nil && err != io.EOF {
					break
				}
				if o.Gap > 0 {
					time.Sleep(time.Duration(o.Gap) * time.Microsecond)
				}
			}
		})
	case "nclose":
		c := d.getConn(o.Ch)
		if c == nil {
			return
		}
		d.limit(cb, o.Async, "nclose", func() {
			q := d.call("nclose", "conn", o.Ch)
			err := c.Close()
			d.log.add("ret", "q", q, "c", "nclose", "conn", o.Ch, "err", errName(err))
		})
	case "lclose":
		l := d.lis[o.L]
		if l == nil {
			return
		}
		d.limit(cb, o.Async, "lclose", func() {
			q := d.call("lclose", "l", o.L)
			err := l.Close()
			d.log.add("ret", "q", q, "c", "lclose", "l", o.L, "err", errName(err))
		})
	}
}

func (d *drv) localName(c net.Conn) string {
	if c == nil || c.LocalAddr() == nil {
		return ""
	}
	return d.addrName(c.LocalAddr().String())
}

func (d *drv) getConn(name string) net.Conn {
	d.mu.Lock()
	defer d.mu.Unlock()
	c := d.conn[name]
	if c == nil {
		d.log.add("noconn", "conn", name)
	}
	return c
}

// limitNo is limit without a time limit: the call may legitimately block
func (d *drv) limitNo(inCb, async bool, f func()) {
	if inCb || !async {
		f()
		return
	}
	go f()
}

// ---------- what an observer can read ----------

type leakDetector struct {
	win   map[uint64]struct{}
	short map[int][][]byte
	hs    [][]byte
	tried int
}

func newLeakDetector() *leakDetector {
	return &leakDetector{win: map[uint64]struct{}{}, short: map[int][][]byte{}}
}

func (l *leakDetector) learn(b []byte) {
	for i := 0; i+8 <= len(b); i++ {
		l.win[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
	if len(b) >= 8 && len(b) <= 16 {
		l.short[len(b)] = append(l.short[len(b)], append([]byte(nil), b...))
	}
}

// check tells whether the packet shows message content, or shows that the
// session key was readable in the handshake
func (l *leakDetector) check(p *packet) bool {
	switch p.k {
	case "C1", "C2", "C3", "C4":
		l.hs = append(l.hs, p.b)
		return false
	}
	for i := 0; i+8 <= len(p.b); i++ {
		if _, ok := l.win[binary.LittleEndian.Uint64(p.b[i:])]; ok {
			return true
		}
	}
	if p.k == "D" && l.tried < 6 && len(l.short[len(p.b)-4]) > 0 {
		l.tried++
		var idb [4]byte
		binary.LittleEndian.PutUint32(idb[:], uint32(p.id))
		for _, h := range l.hs {
			for i := 4; i+32 <= len(h); i++ {
				k := md5.Sum(append(append([]byte(nil), h[i:i+32]...), idb[:]...))
			next:
				for _, pl := range l.short[len(p.b)-4] {
					for j := range pl {
						if p.b[4+j]^k[j%16] != pl[j] {
							continue next
						}
					}
					return true
				}
			}
		}
	}
	return false
}

// ---------- main ----------

func (d *drv) run() {
	d.log.add("scn", "id", d.sc.Id, "prop", d.sc.Prop, "seed", d.sc.Seed)
	if d.sc.Print {
		d.watch()
	}
	for i := range d.sc.Ops {
		d.do(d.sc.Ops[i], false)
	}
	d.unwatch()
	n := d.altered()
	d.mu.Lock()
	kept := len(d.kept)
	d.mu.Unlock()
	d.log.add("kept", "n", kept, "altered", n)
	d.log.add("end")
	// take the network away and end everything quietly
	d.net.mu.Lock()
	d.net.dead = true
	d.net.quiet = true
	d.net.rules = nil
	select {
	case d.net.kick <- struct{}{}:
	default:
	}
	d.net.mu.Unlock()
	d.log.mu.Lock()
	d.log.w = bufio.NewWriter(io.Discard)
	d.log.mu.Unlock()
	d.mu.Lock()
	d.sc.On = nil
	d.mu.Unlock()
}

func TestDrive(t *testing.T) {
	in, out := os.Getenv("DRV_IN"), os.Getenv("DRV_OUT")
	if in == "" {
		t.Skip("no scenarios")
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var scs []*scenario
	if err := json.Unmarshal(b, &scs); err != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR bad scenario file:", err)
		os.Exit(5)
	}
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	hang := 60 * time.Second
	if s := os.Getenv("DRV_HANG"); s != "" {
		hang, _ = time.ParseDuration(s)
	}
	go func() { // real time watchdog, outside the bubble
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if p := progress.Load(); p != last {
				last, since = p, time.Now()
			}
			if time.Since(since) > hang {
				buf := make([]byte, 1<<22)
				fmt.Fprintf(os.Stderr, "DRIVER-HANG\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(4)
			}
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		for _, sc := range scs {
			d := newDrv(sc, f)
			d.run()
			if len(scs) > 1 {
				// end the endpoints so that their timers stop
				for _, tr := range d.tru {
					func() {
						defer func() { recover() }()
						done := make(chan struct{})
						go func() {
							defer func() { recover(); close(done) }()
							tr.Close()
						}()
						select {
						case <-done:
						case <-time.After(time.Second):
						}
					}()
				}
			}
		}
		f.Close()
		os.Exit(0)
	})
}
