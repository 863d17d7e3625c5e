// Calls from several goroutines at once.
package harness

import (
	"math/rand"
	"net"
	"runtime"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/teonet-go/tru"
)

// realTime is monotonic real time in ns. It neither is virtual nor orders the
// goroutines that ask for it
func realTime() int64 {
	var ts syscall.Timespec
	syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Sec*1e9 + ts.Nsec
}

// scall is one call and what came of it
type scall struct {
	op
	tru    *tru.Tru
	chn    *tru.Channel
	conn   net.Conn
	lis    net.Listener
	addr   string
	rdr    tru.ReaderFunc
	pun    tru.PunchFunc
	m      int
	b      []byte
	dl     []any
	spin   int
	t0, t1 int64
	id     int
	err    error
	v      bool
	skip   bool
	ch     *tru.Channel
	chs    []*tru.Channel
	stat   tru.ChannelsStatistic
}

func (s *scall) run(own map[string]*tru.Channel) {
	c := s.chn
	if c == nil {
		c = own[s.Ch]
	}
	switch s.Op {
	case "write", "destroyed", "close", "info":
		if c == nil {
			s.skip = true
			return
		}
	case "nwrite", "nread", "nclose", "ninfo":
		if s.conn == nil {
			s.skip = true
			return
		}
	case "lclose", "laddr":
		if s.lis == nil {
			s.skip = true
			return
		}
	}
	for i := 0; i < s.spin; i++ {
		runtime.Gosched()
	}
	s.t0 = realTime()
	switch s.Op {
	case "write":
		s.id, s.err = c.WriteTo(s.b, s.dl...)
		for i := range s.b { // the caller may reuse its buffer
			s.b[i] = 0xEE
		}
	case "destroyed":
		s.v = c.Destroyed()
	case "close":
		c.Close()
	case "info":
		_, _, _, _, _, _ = c.Addr(), c.String(), c.IP(), c.Port(), c.ServerMode(), c.Triptime()
	case "chans":
		s.tru.ForEachChannel(func(c *tru.Channel) { s.chs = append(s.chs, c) })
	case "stat":
		s.stat = s.tru.Statistic()
	case "closeep":
		s.tru.Close()
	case "connect":
		if s.rdr != nil {
			s.ch, s.err = s.tru.Connect(s.addr, s.rdr)
		} else {
			s.ch, s.err = s.tru.Connect(s.addr)
		}
		if s.err == nil && s.ch != nil {
			own[s.Ch] = s.ch
		}
	case "punchto":
		_, s.err = s.tru.WriteToPunch(s.b, s.addr)
	case "setpunch":
		s.tru.SetPunchCb(s.pun)
	case "maxlen":
		s.tru.SetMaxDataLen(s.N)
	case "delay":
		s.tru.SetSendDelay(s.N)
	case "print":
		s.tru.StatisticPrint()
	case "noprint":
		s.tru.StatisticPrintStop()
	case "printing":
		s.v = s.tru.StatisticPrintRunning()
	case "minilog":
		s.v = s.tru.StatisticMinilog()
	case "epinfo":
		_, _, _ = s.tru.LocalAddr(), s.tru.LocalPort(), s.tru.Hotkey()
		_ = s.tru.Logo("", "")
	case "dial":
		var c net.Conn
		if c, s.err = tru.Dial("tru", s.addr); s.err == nil {
			_, s.err = c.Write(s.b)
			s.conn = c
		}
	case "nwrite":
		_, s.err = s.conn.Write(s.b)
		for i := range s.b {
			s.b[i] = 0xEE
		}
	case "nread":
		_, s.err = s.conn.Read(make([]byte, s.Len))
	case "nclose":
		s.err = s.conn.Close()
	case "ninfo":
		_, _ = s.conn.LocalAddr(), s.conn.RemoteAddr()
		s.conn.SetDeadline(time.Now())
	case "lclose":
		s.err = s.lis.Close()
	case "laddr":
		_ = s.lis.Addr()
	case "nap": // in real time
		ts := syscall.NsecToTimespec(int64(s.Us) * 1000)
		syscall.Nanosleep(&ts, nil)
	case "sleep":
		time.Sleep(time.Duration(s.Us) * time.Microsecond)
	default:
		panic("unknown call " + s.Op)
	}
	s.t1 = realTime()
}

// linger makes goroutines stay for a moment where locks are taken and released
// (perturbed build only)
var linger = func(seed int64) {}

// storm lets goroutines make their calls at the same time. They share nothing
// with one another but the endpoints, and record what happens each on its own
func (d *drv) storm(o op) {
	r := rand.New(rand.NewSource(d.sc.Seed))
	var all [][]*scall
	for _, calls := range o.Go {
		var g []*scall
		for _, x := range calls {
			s := &scall{op: x}
			if r.Intn(3) == 0 {
				s.spin = r.Intn(30)
			}
			d.mu.Lock()
			s.tru, s.chn, s.conn, s.lis = d.tru[x.Ep], d.ch[x.Ch], d.conn[x.Ch], d.lis[x.L]
			d.mu.Unlock()
			switch x.Op {
			case "write", "nwrite":
				s.m, s.b = d.makeMsg(x.Ch, x.Len, x.Kind)
				if x.Cb {
					ch, m := x.Ch, s.m
					s.dl = append(s.dl, tru.PacketDeliveryFunc(func(pac *tru.Packet, err error) {
						d.log.add("dlv", "ch", ch, "m", m, "err", errName(err))
						d.fire("", ch, "dlv", "")
					}))
				}
				if x.Tmo != 0 {
					s.dl = append(s.dl, time.Duration(x.Tmo)*time.Millisecond)
				}
			case "punchto":
				s.m, s.b = d.makeMsg("punch:"+x.Ep+">"+x.To, x.Len, x.Kind)
				s.addr = d.net.addr(x.To).String()
				s.id = int(crc(s.b) & 0x7fffffff)
			case "connect":
				d.mu.Lock()
				d.pend[x.Ep+">"+x.To] = x.Ch
				d.mu.Unlock()
				s.addr = d.net.addr(x.To).String()
				if x.Reader != "" && x.Reader != "none" {
					s.rdr = d.reader(x.Ep, "c", x.Reader, x.Ch)
				}
			case "dial":
				d.next = x.Ep
				s.addr = d.net.addr(x.To).String()
				s.m, s.b = d.makeMsg(x.Ch, x.Len, x.Kind)
			case "setpunch":
				s.pun = d.punch(x.Ep, x.N)
			}
			g = append(g, s)
		}
		all = append(all, g)
	}
	start := make(chan struct{})
	var ready, wg sync.WaitGroup
	for _, g := range all {
		ready.Add(1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			own := map[string]*tru.Channel{}
			ready.Done()
			<-start
			for _, s := range g {
				s.run(own)
			}
		}()
	}
	ready.Wait()
	linger(int64(r.Int31()))
	defer linger(-1)
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(callLimit + time.Second):
		d.log.add("stuck", "c", "storm", "cb", false)
		return
	}
	progress.Add(1)
	for _, g := range all {
		for _, s := range g {
			if s.Op == "connect" && s.ch != nil && s.err == nil {
				d.mu.Lock()
				d.name[s.ch] = s.Ch
				d.ch[s.Ch] = s.ch
				d.mu.Unlock()
			}
		}
	}
	for _, g := range all {
		for _, s := range g {
			if s.Op == "dial" {
				err := errName(s.err)
				if s.err == nil && d.net.nameOf(s.conn.LocalAddr()) != s.Ep {
					err = "elsewhere"
				}
				d.log.add("sdial", "ep", s.Ep, "to", s.To, "err", err)
				if s.err == nil {
					d.mu.Lock()
					d.conn[s.Ch] = s.conn
					d.mu.Unlock()
				}
			}
		}
	}
	var out []ev
	for i, g := range all {
		for _, s := range g {
			if s.skip {
				continue
			}
			x := ev{"g": i, "c": s.Op, "ep": s.Ep, "to": s.To, "ch": s.Ch, "t0": s.t0, "t1": s.t1, "m": s.m, "len": s.Len, "n": s.N, "id": s.id, "err": errName(s.err), "v": s.v, "cb": s.Cb}
			if s.Op == "chans" {
				chs := []string{}
				for _, c := range s.chs {
					chs = append(chs, d.chName(s.Ep, c))
				}
				x["chs"] = chs
			}
			if s.Op == "stat" {
				rows := [][2]any{}
				for _, q := range s.stat {
					rows = append(rows, [2]any{d.addrName(q.Addr), q.Send})
				}
				x["rows"] = rows
			}
			out = append(out, x)
		}
	}
	d.log.add("storm", "calls", out)
}
