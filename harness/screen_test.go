package harness

import (
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

// screen records what the code under test writes to the standard output
type screen struct {
	mu   sync.Mutex
	f    *os.File
	old  *os.File
	off  int64
	rest string
	stop bool
}

const lookEvery = 10 * time.Millisecond

func (d *drv) watch() {
	f, err := os.CreateTemp(".", "screen")
	if err != nil {
		panic("harness: " + err.Error())
	}
	os.Remove(f.Name())
	d.scr = &screen{f: f, old: os.Stdout}
	os.Stdout = f
	go func() {
		for {
			time.Sleep(lookEvery)
			d.scr.mu.Lock()
			stop := d.scr.stop
			d.scr.mu.Unlock()
			if stop {
				return
			}
			d.look()
		}
	}()
}

func (d *drv) unwatch() {
	if d.scr == nil {
		return
	}
	d.look()
	d.scr.mu.Lock()
	d.scr.stop = true
	d.scr.mu.Unlock()
	os.Stdout = d.scr.old
}

// look logs the frames written since the last time
func (d *drv) look() {
	s := d.scr
	if s == nil {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	buf := make([]byte, 1<<16)
	for {
		n, _ := s.f.ReadAt(buf, s.off)
		if n <= 0 {
			break
		}
		s.off += int64(n)
		s.rest += string(buf[:n])
	}
	for {
		i := strings.Index(s.rest, "\x1b[s")
		if i < 0 {
			return
		}
		j := strings.Index(s.rest[i:], "\x1b[?7h")
		if j < 0 {
			return
		}
		d.frame(s.rest[i : i+j])
		s.rest = s.rest[i+j+5:]
	}
}

var (
	escRe  = regexp.MustCompile("\x1b\\[[0-9;?]*[A-Za-z]")
	headRe = regexp.MustCompile(`^TRU (\S+), RCH: (\d+), SCH: (\d+), run time: (\S+)$`)
	msgRe  = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{6}) (.*)$`)
)

func (d *drv) frame(text string) {
	ep, run := "", -1
	rows := []map[string]any{}
	tot := []int{}
	msgs := [][3]any{}
	odd := 0
	titles := 0
	nums := func(f []string) (v []int, ok bool) {
		for _, x := range f {
			n, err := strconv.Atoi(x)
			if err != nil {
				return nil, false
			}
			v = append(v, n)
		}
		return v, true
	}
	for _, line := range strings.Split(escRe.ReplaceAllString(text, ""), "\n") {
		line = strings.TrimRight(line, " ")
		if line == "" || strings.Trim(line, "┈") == "" {
			continue
		}
		f := strings.Fields(line)
		if m := headRe.FindStringSubmatch(line); m != nil && run < 0 {
			ep = d.addrName(m[1])
			if x, err := time.ParseDuration(m[4]); err == nil {
				run = int(x.Microseconds())
			}
			continue
		}
		if m := msgRe.FindStringSubmatch(line); m != nil {
			at, err := time.ParseInLocation("2006-01-02 15:04:05.000000", m[1], time.Local)
			peer := ""
			for _, x := range strings.Fields(m[2]) {
				if p := d.addrName(x); p != "" {
					peer = p
				}
			}
			if err == nil {
				msgs = append(msgs, [3]any{int(at.Sub(d.log.t0).Microseconds()), strings.HasPrefix(m[2], "new channel"), peer})
				continue
			}
		}
		if f[0] == "ADDR" && len(f) == 14 {
			titles++
			continue
		}
		if len(f) == 14 {
			v, ok := nums(f[1:13])
			tt, err := strconv.ParseFloat(f[13], 64)
			if ok && err == nil {
				rows = append(rows, map[string]any{"peer": d.addrName(f[0]), "addr": f[0], "v": v, "tt": int(tt*1000 + 0.5)})
				continue
			}
		}
		if v, ok := nums(f); ok && len(f) == 11 && len(tot) == 0 {
			tot = v
			continue
		}
		odd++
	}
	if titles > 1 || titles == 0 && len(rows) > 0 {
		odd++
	}
	d.log.add("frame", "ep", ep, "run", run, "rows", rows, "tot", tot, "msgs", msgs, "odd", odd)
}
