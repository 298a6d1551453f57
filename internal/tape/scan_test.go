package tape

import (
	"fmt"
	"os"
	"testing"
	"time"
	"verif/internal/gsa"
)

func TestScan(t *testing.T) {
	d := os.Getenv("TAPE_REPO")
	if d == "" {
		t.Skip()
	}
	p, err := gsa.Load(d, "./svcdef/svcparse")
	if err != nil {
		t.Fatal(err)
	}
	cnt := map[string]int{}
	sm := map[string][]string{}
	DebugHook = func(w, k string) {
		if os.Getenv("DUMP") == w {
			fmt.Println("KEY", k)
		}
		cnt[w]++
		if cnt[w] > 8000 && cnt[w] < 8010 {
			sm[w] = append(sm[w], k)
		}
	}
	defer func() {
		for w, n := range cnt {
			if n > 20000 {
				t.Log(n, w)
			}
			if n > 2000000 {
				for _, k := range sm[w] {
					t.Log(w, k)
				}
			}
		}
	}()
	t0 := time.Now()
	fn := p.Func("github.com/teamlint/baron/svcdef/svcparse", "NewSvcScanner")
	r, err := Scan(p.SSA, p.InRepo, fn, func(string) bool { return true })
	t.Log(time.Since(t0), err)
	if r == nil {
		return
	}
	pr := func(n string, l []Finding) {
		for _, f := range l {
			t.Log(n, f.Key, f.Msg, p.SSA.Fset.Position(f.Pos))
		}
	}
	t.Log("states", r.States, r.Edges, "classes", r.Classes, "returned", r.Returned, "appends", len(r.Appends))
	pr("TEXT", r.Text)
	pr("SAFE", r.Safe)
	pr("STATE", r.State)
	pr("UNSURE", r.Unsure)

}
