// Package logdrv executes scripts on teolog and records what was printed.
package logdrv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"log"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/teonet-go/tru/teolog"
)

type op struct {
	Op    string   `json:"op"`
	O     int      `json:"o"`
	Kind  string   `json:"kind"`
	N     int      `json:"n"`
	Name  string   `json:"name"`
	Parts []string `json:"parts"`
	Text  string   `json:"text"`
	Cases int      `json:"cases"` // letter case of a printed name
	Tasks []task   `json:"tasks"` // what several goroutines do at once
}

type task struct {
	Op    string     `json:"op"`
	Times int        `json:"times"`
	Ns    []int      `json:"ns"`    // levels, one after the other
	Fs    [][]string `json:"fs"`    // filters, one after the other
	N     int        `json:"n"`     // logger
	Text  string     `json:"text"`
	Count int        `json:"count"` // how often it was printed
}

type scenario struct {
	Id   string `json:"id"`
	Objs int    `json:"objs"`
	Ops  []op   `json:"ops"`
}

var level = []teolog.LogLevel{teolog.None, teolog.Error, teolog.User, teolog.Info, teolog.Connect, teolog.Debug, teolog.Debugv, teolog.Debugvv, teolog.Debugvvv}

func cased(s string, k int) string {
	switch k {
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	case 3:
		b := []byte(strings.ToLower(s))
		for i := 1; i < len(b); i += 2 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
		return string(b)
	}
	return s
}

func TestDrive(t *testing.T) {
	in, out := os.Getenv("DRV_IN"), os.Getenv("DRV_OUT")
	if in == "" {
		t.Skip("no scenarios")
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var scs []*scenario
	if err := json.Unmarshal(b, &scs); err != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR", err)
		os.Exit(5)
	}
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(f)
	rec := func(kv ...any) {
		m := map[string]any{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		b, _ := json.Marshal(m)
		w.Write(append(b, '\n'))
		w.Flush()
	}
	dog := time.AfterFunc(60*time.Second, func() {
		fmt.Fprintln(os.Stderr, "DRIVER-HANG")
		os.Exit(4)
	})
	defer dog.Stop()

	// standard output goes to a file, read from where it was read last
	name := out + ".stdout"
	std, err := os.OpenFile(name, os.O_CREATE|os.O_TRUNC|os.O_RDWR|os.O_APPEND, 0600)
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(name)
	rd, err := os.Open(name)
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = std
	printed := func() string {
		var s []byte
		buf := make([]byte, 4096)
		for {
			n, err := rd.Read(buf)
			s = append(s, buf[:n]...)
			if n == 0 || err != nil {
				return string(s)
			}
		}
	}

	for _, sc := range scs {
		rec("e", "scn", "id", sc.Id)
		objs := make([]*teolog.Teolog, sc.Objs)
		for i := range objs {
			objs[i] = teolog.New()
		}
		for _, o := range sc.Ops {
			l := objs[o.O-1]
			switch o.Op {
			case "lvl":
				switch o.Kind {
				case "int":
					l.SetLevel(int(level[o.N]))
				case "type":
					l.SetLevel(level[o.N])
				case "printed":
					l.SetLevel(cased(level[o.N].String(), o.Cases))
				case "name":
					l.SetLevel(o.Name)
				}
				rec("e", "lvl", "o", o.O, "kind", o.Kind, "n", o.N, "name", o.Name, "now", l.Level(), "str", l.String(), "out", len(printed()))
			case "sw":
				r := l.SwitchLevel()
				rec("e", "sw", "o", o.O, "ret", r, "now", l.Level(), "str", l.String(), "out", len(printed()))
			case "flt":
				switch o.Kind {
				case "slice":
					l.SetFilter(teolog.Filter(append([]string{}, o.Parts...)))
				case "string":
					l.SetFilter(strings.Join(o.Parts, "||"))
				case "spaced":
					l.SetFilter(" " + strings.Join(o.Parts, " || ") + " ")
				case "parsed":
					l.SetFilter(teolog.Logfilter(strings.Join(o.Parts, " ||")))
				case "clear":
					l.ClearFilter()
				}
				rec("e", "flt", "o", o.O, "kind", o.Kind, "parts", o.Parts, "out", len(printed()))
			case "flags":
				l.SetFlags(o.N)
				rec("e", "flags", "o", o.O, "out", len(printed()))
			case "conc":
				var wg sync.WaitGroup
				start := make(chan struct{})
				for _, k := range o.Tasks {
					k := k
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						g := []*log.Logger{l.Error, l.User, l.Info, l.Connect, l.Debug, l.Debugv, l.Debugvv, l.Debugvvv}
						for i := 0; i < k.Times; i++ {
							switch k.Op {
							case "sw":
								l.SwitchLevel()
							case "lvl":
								l.SetLevel(k.Ns[i%len(k.Ns)])
							case "flt":
								if f := k.Fs[i%len(k.Fs)]; len(f) == 0 {
									l.ClearFilter()
								} else {
									l.SetFilter(teolog.Filter(append([]string{}, f...)))
								}
							case "log":
								g[k.N-1].Println(k.Text)
							case "look":
								_, _, _ = l.Level(), l.String(), l.Filter()
							}
						}
					}()
				}
				close(start)
				wg.Wait()
				s := printed()
				for i := range o.Tasks {
					if o.Tasks[i].Op == "log" {
						o.Tasks[i].Count = strings.Count(s, o.Tasks[i].Text+"\n")
					}
				}
				rec("e", "conc", "o", o.O, "tasks", o.Tasks, "now", l.Level(), "flt", l.Filter())
			case "log":
				g := []*log.Logger{l.Error, l.User, l.Info, l.Connect, l.Debug, l.Debugv, l.Debugvv, l.Debugvvv}[o.N-1]
				switch o.Kind {
				case "println":
					g.Println(o.Text)
				case "printf":
					g.Printf("%s", o.Text)
				case "print":
					g.Print(o.Text)
				case "output":
					g.Output(1, o.Text)
				}
				s := printed()
				rec("e", "log", "o", o.O, "n", o.N, "text", o.Text, "len", len(s), "count", strings.Count(s, o.Text), "whole", strings.HasSuffix(s, o.Text+"\n"))
			}
		}
		rec("e", "end")
	}
	w.Flush()
	f.Close()
	os.Exit(0)
}
