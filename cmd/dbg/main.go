package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/internal/gsa"
)

func main() {
	t0 := time.Now()
	p, err := gsa.Load(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	t0 = time.Now()
	e := p.RepoEngine(gsa.Policy{Recur: 1, Inline: func(fn *ssa.Function) bool {
		if !p.InRepo(fn) {
			return false
		}
		if len(os.Args) < 4 {
			return true
		}
		for _, x := range strings.Split(os.Args[3], ",") {
			if strings.Contains(fn.String(), x) {
				return false
			}
		}
		return true
	}, Pure: func(n string) bool {
		if len(os.Args) < 4 {
			return false
		}
		for _, x := range strings.Split(os.Args[3], ",") {
			if strings.Contains(n, x) {
				return true
			}
		}
		return false
	}})
	fmt.Println("init", time.Since(t0))
	i := strings.LastIndex(os.Args[2], ":")
	fn := p.Func(p.Module()+os.Args[2][:i], os.Args[2][i+1:])
	t0 = time.Now()
	res, n := e.Eval(fn)
	fmt.Println("eval", time.Since(t0), "bdd", e.B.Size(), "effects", len(e.Effects))
	for _, ef := range e.Effects {
		pos := p.SSA.Fset.Position(ef.Pos)
		var as []string
		for _, a := range ef.Args {
			as = append(as, e.GVString(a))
		}
		l := ""
		for _, x := range ef.Loops {
			l += fmt.Sprintf("[loop %s %s over %v]", x.ID, x.Kind, x.Over)
		}
		fmt.Printf("%s:%d %s %s(%s) %s IF %s\n", pos.Filename[strings.LastIndex(pos.Filename, "/")+1:], pos.Line, ef.Kind, ef.Name, strings.Join(as, "; "), l, e.CondString(ef.Cond))
	}
	fmt.Println("normal", e.CondString(n))
	for i, r := range res {
		fmt.Println("res", i, e.GVString(r))
	}
	for k := range e.Notes {
		fmt.Println("note", k)
	}
}
