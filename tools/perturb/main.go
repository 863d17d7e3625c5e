// Perturb prepares a build of the code under test in which goroutines linger,
// now and then, where they are about to take a lock or have just released one,
// so that more of the orders the specification allows do occur. What the code
// does is not changed. It writes the altered files and an overlay for go build.
//
//	perturb DIR OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const linger = `package %s

import "sync/atomic"

// VerifLinger is called with the number of the place where a lock is taken or released
var VerifLinger atomic.Pointer[func(site int)]

func verifLinger(site int) {
	if f := VerifLinger.Load(); f != nil {
		(*f)(site)
	}
}
`

type insert struct {
	at   int
	text string
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	must(err)
	pkg, sites := "", 0
	call := func() string {
		sites++
		return fmt.Sprintf("verifLinger(%d)", sites)
	}
	for _, name := range files {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, err := os.ReadFile(name)
		must(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		must(err)
		pkg = f.Name.Name
		var ins []insert
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt:
					switch lockCall(s.X) {
					case "Lock", "RLock":
						ins = append(ins, insert{off(s.Pos()), call() + "; "})
					case "Unlock", "RUnlock":
						ins = append(ins, insert{off(s.End()), "; " + call()})
					}
				case *ast.DeferStmt:
					switch lockCall(s.Call) {
					case "Unlock", "RUnlock":
						ins = append(ins, insert{off(s.Pos()), "defer " + call() + "; "})
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			}
			return true
		})
		if len(ins) == 0 {
			continue
		}
		sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
		var b strings.Builder
		last := 0
		for _, x := range ins {
			b.Write(src[last:x.at])
			b.WriteString(x.text)
			last = x.at
		}
		b.Write(src[last:])
		to := filepath.Join(out, filepath.Base(name))
		must(os.WriteFile(to, []byte(b.String()), 0o644))
		overlay[name] = to
	}
	to := filepath.Join(out, "verif_linger.go")
	must(os.WriteFile(to, []byte(fmt.Sprintf(linger, pkg)), 0o644))
	overlay[filepath.Join(dir, "verif_linger.go")] = to
	js, err := json.Marshal(map[string]any{"Replace": overlay})
	must(err)
	must(os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644))
}

// lockCall returns the name of the locking method called without arguments
func lockCall(x ast.Expr) string {
	c, ok := x.(*ast.CallExpr)
	if !ok || len(c.Args) != 0 {
		return ""
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	return s.Sel.Name
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
