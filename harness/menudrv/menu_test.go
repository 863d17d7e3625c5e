// Package menudrv uses the hotkey menu of an endpoint: its terminal is a pseudo
// terminal, and what it shows, sets and prints is recorded after every key.
package menudrv

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/teonet-go/tru"
	"github.com/teonet-go/tru/hotkey"
	"github.com/teonet-go/tru/teolog"
	"golang.org/x/sys/unix"
)

type op struct {
	Op   string   `json:"op"`
	Key  string   `json:"key"`  // hex
	Text string   `json:"text"` // typed after the key, with Enter
	Ask  bool     `json:"ask"`  // the key asks for a line
	Live bool     `json:"live"` // the menu is expected to be running
	Name string   `json:"name"` // of the key
	Add  []string `json:"parts"`
	N    int      `json:"n"`
}

type scenario struct {
	Id     string   `json:"id"`
	Level  string   `json:"level"`
	Filter []string `json:"filter"`
	Stat   bool     `json:"stat"`
	Ops    []op     `json:"ops"`
}

var (
	mu    sync.Mutex // of the record
	w     *bufio.Writer
	slave int
	outMu sync.Mutex
	shown []byte // what was printed and not looked at yet
)

func rec(kv ...any) {
	m := map[string]any{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	mu.Lock()
	defer mu.Unlock()
	b, _ := json.Marshal(m)
	w.Write(append(b, '\n'))
	w.Flush()
}

func until(limit time.Duration, f func() bool) bool {
	end := time.Now().Add(limit)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(100 * time.Microsecond)
	}
	return true
}

// waiting: a key is waited for and none is there
func waiting() bool {
	t, err := unix.IoctlGetTermios(slave, unix.TCGETS)
	if err != nil || t.Lflag&unix.ICANON != 0 {
		return false
	}
	n, err := unix.IoctlGetInt(slave, unix.TIOCINQ)
	return err == nil && n == 0
}

// mark leaves a mark in the settings of the terminal, which is gone when they
// are put back after a key was taken
func mark() {
	if t, err := unix.IoctlGetTermios(slave, unix.TCGETS); err == nil {
		t.Cc[unix.VDISCARD] = 0x1e
		unix.IoctlSetTermios(slave, unix.TCSETS, t)
	}
}

func marked() bool {
	t, err := unix.IoctlGetTermios(slave, unix.TCGETS)
	return err == nil && t.Cc[unix.VDISCARD] == 0x1e
}

// inside: some goroutine is inside a function of this name
func inside(name string) bool {
	buf := make([]byte, 1<<18)
	return strings.Contains(string(buf[:runtime.Stack(buf, true)]), name)
}

// take what was shown, when nothing more comes
func take() string {
	end := fmt.Sprintf("#end%d#", time.Now().UnixNano())
	os.Stdout.WriteString(end)
	var s string
	until(3*time.Second, func() bool {
		outMu.Lock()
		defer outMu.Unlock()
		i := strings.Index(string(shown), end)
		if i < 0 {
			return false
		}
		s = string(shown[:i])
		shown = shown[i+len(end):]
		return true
	})
	return s
}

var probes int

// observe records what is set and what the loggers print
func observe(t *tru.Tru, log *teolog.Teolog, out string) {
	probes++
	ls := []interface{ Println(...any) }{log.Error, log.User, log.Info, log.Connect, log.Debug, log.Debugv, log.Debugvv, log.Debugvvv}
	text := fmt.Sprintf("probe%dzqa", probes)
	for i, l := range ls {
		l.Println(fmt.Sprintf("%s-%d.", text, i+1))
	}
	s := take()
	printed := []int{}
	for i := range ls {
		if strings.Contains(s, fmt.Sprintf("%s-%d.", text, i+1)) {
			printed = append(printed, i+1)
		}
	}
	rec("e", "obs", "probe", text, "level", int(log.Level()), "filter", log.Filter(), "stat", t.StatisticPrintRunning(), "printed", printed, "out", out)
}

func TestDrive(t *testing.T) {
	in, out := os.Getenv("DRV_IN"), os.Getenv("DRV_OUT")
	if in == "" {
		t.Skip("no scenarios")
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	fail := func(a ...any) {
		fmt.Fprintln(os.Stderr, append([]any{"DRIVER-ERROR"}, a...)...)
		os.Exit(5)
	}
	var scs []*scenario
	if err := json.Unmarshal(b, &scs); err != nil || len(scs) != 1 {
		fail(err)
	}
	sc := scs[0]
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	w = bufio.NewWriter(f)
	time.AfterFunc(60*time.Second, func() {
		fmt.Fprintln(os.Stderr, "DRIVER-HANG")
		os.Exit(4)
	})

	// the terminal
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil {
		fail(err)
	}
	fd := int(master.Fd())
	n, err1 := unix.IoctlGetInt(fd, unix.TIOCGPTN)
	err2 := unix.IoctlSetPointerInt(fd, unix.TIOCSPTLCK, 0)
	slave, err = unix.Open(fmt.Sprintf("/dev/pts/%d", n), unix.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil || err1 != nil || err2 != nil || unix.Dup2(slave, 0) != nil {
		fail(err, err1, err2)
	}
	unix.IoctlSetWinsize(slave, unix.TIOCSWINSZ, &unix.Winsize{Row: 50, Col: 160})
	go func() { // what the terminal echoes
		buf := make([]byte, 4096)
		for {
			if _, err := master.Read(buf); err != nil {
				return
			}
		}
	}()

	// what is printed
	pr, pw, err := os.Pipe()
	if err != nil {
		fail(err)
	}
	os.Stdout = pw
	go func() {
		buf := make([]byte, 1<<16)
		for {
			n, err := pr.Read(buf)
			if err != nil {
				return
			}
			outMu.Lock()
			shown = append(shown, buf[:n]...)
			outMu.Unlock()
		}
	}()

	log := teolog.New()
	rec("e", "scn", "id", sc.Id)
	reader := func(ch *tru.Channel, pac *tru.Packet, err error) bool {
		if err != nil {
			rec("e", "told", "ch", ch != nil, "err", err.Error())
		}
		return true
	}
	var params = []any{tru.Hotkey(true), log, sc.Level, reader}
	if len(sc.Filter) > 0 {
		params = append(params, teolog.Filter(sc.Filter))
	}
	if sc.Stat {
		params = append(params, tru.Stat(true))
	}
	ep, err := tru.New(0, params...)
	if err != nil {
		fail(err)
	}
	peer, err := tru.New(0, log, sc.Level, teolog.Filter(sc.Filter))
	if err != nil {
		fail(err)
	}
	if _, err := ep.Connect(fmt.Sprintf("127.0.0.1:%d", peer.LocalPort())); err != nil {
		fail(err)
	}
	menu := ep.Hotkey()
	if !until(3*time.Second, waiting) {
		rec("e", "key", "key", "", "code", "", "text", "", "live", true, "ready", false)
		rec("e", "end")
		os.Exit(0)
	}
	observe(ep, log, take())

	for _, o := range sc.Ops {
		switch o.Op {
		case "key":
			ready := true
			if o.Live {
				ready = until(3*time.Second, waiting)
				mark()
			}
			k, _ := hex.DecodeString(o.Key)
			take()
			rec("e", "key", "key", o.Name, "code", fmt.Sprint(k), "text", o.Text, "live", o.Live, "ready", ready)
			master.Write(k)
			ok := true
			if !o.Live {
				time.Sleep(15 * time.Millisecond)
				unix.IoctlSetInt(slave, unix.TCFLSH, unix.TCIFLUSH)
			} else {
				asked := true
				if o.Ask {
					// it shows what to type, and reads the terminal as a whole line
					asked = until(3*time.Second, func() bool { return !marked() && inside("bufio.(*Reader)") })
					if asked {
						master.Write([]byte(o.Text + "\n"))
						// the line is read when the next key is waited for
						asked = until(3*time.Second, func() bool { return waiting() || !inside("tru/hotkey.") })
					}
				}
				ok = asked && until(3*time.Second, func() bool {
					return (o.Ask || !marked()) && (waiting() || !inside("tru/hotkey."))
				})
			}
			s := take()
			if !ok {
				rec("e", "stuck", "c", o.Key)
				rec("e", "end")
				os.Exit(0)
			}
			observe(ep, log, s)
		case "level":
			log.SetLevel(o.N)
			rec("e", "level", "n", o.N)
			observe(ep, log, take())
		case "filter":
			if len(o.Add) == 0 {
				log.ClearFilter()
			} else {
				log.SetFilter(teolog.Filter(o.Add))
			}
			rec("e", "filter", "parts", o.Add)
			observe(ep, log, take())
		case "print":
			ep.StatisticPrint()
			rec("e", "print", "on", true)
			observe(ep, log, take())
		case "noprint":
			ep.StatisticPrintStop()
			rec("e", "print", "on", false)
			observe(ep, log, take())
		case "minilog":
			rec("e", "minilog", "now", ep.StatisticMinilog())
		case "run":
			menu.Run()
			rec("e", "run")
		case "add": // the application adds a key of its own
			k, _ := hex.DecodeString(o.Key)
			menu.Add(string(k), "own key", func(h *hotkey.Hotkey) { rec("e", "own", "key", o.Name) })
			rec("e", "add", "key", o.Name)
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		}
	}
	rec("e", "end")
	os.Exit(0)
}
