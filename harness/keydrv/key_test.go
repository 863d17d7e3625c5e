// Package keydrv executes scripts on a hotkey menu whose terminal is a pseudo
// terminal and records what ran.
package keydrv

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/teonet-go/tru/hotkey"
	"golang.org/x/sys/unix"
)

type op struct {
	Op   string   `json:"op"`
	Kind string   `json:"kind"`
	Keys []string `json:"keys"`
	Id   int      `json:"id"` // 0: no function
	Eff  []op     `json:"eff"`
	Live bool     `json:"live"` // the menu is expected to be running
	N    int      `json:"n"`
}

type scenario struct {
	Id  string `json:"id"`
	Ops []op   `json:"ops"`
}

type drv struct {
	mu   sync.Mutex
	w    *bufio.Writer
	h    *hotkey.Hotkey
	bad  bool // the menu did not answer: the rest is not worth the time
	busy sync.WaitGroup
}

func (d *drv) rec(kv ...any) {
	m := map[string]any{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	b, _ := json.Marshal(m)
	d.w.Write(append(b, '\n'))
	d.w.Flush()
}

var slave int

// waiting: a key is waited for and none is there
func waiting() bool {
	t, err := unix.IoctlGetTermios(slave, unix.TCGETS)
	if err != nil || t.Lflag&unix.ICANON != 0 {
		return false
	}
	n, err := unix.IoctlGetInt(slave, unix.TIOCINQ)
	return err == nil && n == 0
}

func until(limit time.Duration, f func() bool) bool {
	end := time.Now().Add(limit)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(100 * time.Microsecond)
	}
	return true
}

func (d *drv) do(master *os.File, o op) {
	key := func(i int) []byte {
		b, _ := hex.DecodeString(o.Keys[i])
		return b
	}
	h := d.h
	switch o.Op {
	case "add":
		d.rec("e", "add", "keys", o.Keys, "id", o.Id)
		var f func(*hotkey.Hotkey)
		if o.Id != 0 {
			f = func(x *hotkey.Hotkey) {
				d.rec("e", "ran", "k", "a", "id", o.Id, "key", "", "self", x == h)
				for _, e := range o.Eff {
					d.do(master, e)
				}
			}
		}
		var ks any
		switch o.Kind {
		case "bytes":
			ks = key(0)
		case "string":
			ks = string(key(0))
		case "code":
			ks = hotkey.KeyCode{Code: key(0), Name: "K"}
		case "strings":
			l := []string{}
			for i := range o.Keys {
				l = append(l, string(key(i)))
			}
			ks = l
		case "codes":
			l := []hotkey.KeyCode{}
			for i := range o.Keys {
				l = append(l, hotkey.KeyCode{Code: key(i)})
			}
			ks = l
		}
		h.Add(ks, fmt.Sprint("d", o.Id), f)
	case "unknown":
		d.rec("e", "unknown", "id", o.Id)
		var f func(*hotkey.Hotkey, []byte)
		if o.Id != 0 {
			f = func(x *hotkey.Hotkey, ch []byte) {
				d.rec("e", "ran", "k", "u", "id", o.Id, "key", hex.EncodeToString(ch), "self", x == h)
				for _, e := range o.Eff {
					d.do(master, e)
				}
			}
		}
		h.AddUnknown(f)
	case "next":
		d.rec("e", "next", "id", o.Id)
		var f func([]byte)
		if o.Id != 0 {
			f = func(ch []byte) {
				d.rec("e", "ran", "k", "n", "id", o.Id, "key", hex.EncodeToString(ch), "self", true)
				for _, e := range o.Eff {
					d.do(master, e)
				}
			}
		}
		h.NextKeyAction(f)
	case "setstop":
		d.rec("e", "setstop", "id", o.Id)
		h.SetStopAction(func() { d.rec("e", "stopact", "id", o.Id) })
	case "help":
		_ = h.String()
	case "run":
		d.rec("e", "run")
		h.Run()
	case "stop":
		d.rec("e", "stop")
		h.Stop()
		d.rec("e", "stopped")
	case "sleep":
		time.Sleep(time.Duration(o.N) * time.Millisecond)
	case "busy": // keys that are never pressed are added meanwhile
		for g := 0; g < 2; g++ {
			d.busy.Add(1)
			go func() {
				defer d.busy.Done()
				for i := 0; i < o.N; i++ {
					h.Add(fmt.Sprintf("%04d", i%50), "", nil)
					if i%16 == 0 {
						_ = h.String()
						time.Sleep(20 * time.Microsecond)
					}
				}
			}()
		}
	case "join":
		d.busy.Wait()
	case "press":
		ready := true
		if o.Live {
			ready = until(3*time.Second, waiting)
			mark()
		}
		d.bad = d.bad || !ready
		d.rec("e", "press", "key", o.Keys[0], "ready", ready)
		master.Write(key(0))
		if o.Live {
			// until the key is taken, its functions have run and the next one
			// is waited for, or there is no menu any more
			ok := until(3*time.Second, func() bool { return !marked() && (waiting() || !alive()) })
			if !ok { // perhaps the mark is not wiped
				n, _ := unix.IoctlGetInt(slave, unix.TIOCINQ)
				ok = n == 0
			}
			d.bad = d.bad || !ok
			d.rec("e", "idle", "ok", ok)
		} else {
			time.Sleep(15 * time.Millisecond)
			d.rec("e", "idle", "ok", true)
			unix.IoctlSetInt(slave, unix.TCFLSH, unix.TCIFLUSH)
		}
	}
}

// mark leaves a mark in the settings of the terminal, which is gone when they
// are put back after a key was taken
func mark() {
	if t, err := unix.IoctlGetTermios(slave, unix.TCGETS); err == nil {
		t.Cc[unix.VDISCARD] = 0x1e
		unix.IoctlSetTermios(slave, unix.TCSETS, t)
	}
}

func marked() bool {
	t, err := unix.IoctlGetTermios(slave, unix.TCGETS)
	return err == nil && t.Cc[unix.VDISCARD] == 0x1e
}

// alive: some goroutine is inside the menu
func alive() bool {
	buf := make([]byte, 1<<16)
	return strings.Contains(string(buf[:runtime.Stack(buf, true)]), "tru/hotkey.")
}

func TestDrive(t *testing.T) {
	in, out := os.Getenv("DRV_IN"), os.Getenv("DRV_OUT")
	if in == "" {
		t.Skip("no scenarios")
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var scs []*scenario
	if err := json.Unmarshal(b, &scs); err != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR", err)
		os.Exit(5)
	}
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	time.AfterFunc(60*time.Second, func() {
		fmt.Fprintln(os.Stderr, "DRIVER-HANG")
		os.Exit(4)
	})

	// the terminal
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR", err)
		os.Exit(5)
	}
	fd := int(master.Fd())
	n, err1 := unix.IoctlGetInt(fd, unix.TIOCGPTN)
	err2 := unix.IoctlSetPointerInt(fd, unix.TIOCSPTLCK, 0)
	slave, err = unix.Open(fmt.Sprintf("/dev/pts/%d", n), unix.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil || err1 != nil || err2 != nil || unix.Dup2(slave, 0) != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR", err, err1, err2)
		os.Exit(5)
	}
	go func() { // what the terminal echoes
		buf := make([]byte, 4096)
		for {
			if _, err := master.Read(buf); err != nil {
				return
			}
		}
	}()

	d := &drv{w: bufio.NewWriter(f)}
	for _, sc := range scs {
		d.rec("e", "scn", "id", sc.Id)
		d.h = hotkey.New()
		d.bad = false
		for _, o := range sc.Ops {
			if d.bad {
				break
			}
			d.do(master, o)
		}
		d.rec("e", "end")
	}
	os.Exit(0)
}
