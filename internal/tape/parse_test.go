package tape

import (
	"os"
	"testing"
	"time"

	"verif/internal/gsa"
)

func TestParse(t *testing.T) {
	d := os.Getenv("TAPE_REPO")
	if d == "" {
		t.Skip()
	}
	p, err := gsa.Load(d, "./svcdef/svcparse")
	if err != nil {
		t.Fatal(err)
	}
	t0 := time.Now()
	cnt := map[string]int{}
	n := 0
	DebugHook = func(w, k string) {
		cnt[w]++
		n++
		if os.Getenv("DUMP") == w && cnt[w] > 300 && cnt[w] < 320 {
			println(k)
		}
		if n%20000 == 0 && os.Getenv("CNT") != "" {
			for w, n := range cnt {
				if n > 400 {
					println(n, w)
				}
			}
			println("--", n, time.Since(t0).String())
		}
	}
	pkg := "github.com/teamlint/baron/svcdef/svcparse"
	r, err := Parse(p.SSA, p.InRepo, p.Func(pkg, "ParseService"), func(string) bool { return true })
	t.Log(time.Since(t0), err)
	if r == nil {
		return
	}
	pr := func(n string, l []Finding) {
		for _, f := range l {
			t.Log(n, f.Key, f.Msg, p.SSA.Fset.Position(f.Pos))
		}
	}
	t.Log("states", r.States, r.Edges, "kinds", r.Classes, "returned", r.Returned, "appends", len(r.Appends))
	pr("KIND", r.Kind)
	pr("SAFE", r.Safe)
	pr("UNSURE", r.Unsure)
}
