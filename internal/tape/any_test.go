package tape

import (
	"os"
	"testing"
	"time"

	"verif/internal/gsa"
)

func TestAny(t *testing.T) {
	d := os.Getenv("TAPE_REPO")
	if d == "" {
		t.Skip()
	}
	p, err := gsa.Load(d, "./svcdef/svcparse")
	if err != nil {
		t.Fatal(err)
	}
	t0 := time.Now()
	cnt := map[string]int{}
	n := 0
	DebugHook = func(w, k string) {
		cnt[w]++
		n++
		if os.Getenv("DUMP") == w && cnt[w] > 300 && cnt[w] < 310 {
			println(k)
		}
		if n%20000 == 0 && os.Getenv("CNT") != "" {
			for w, n := range cnt {
				if n > 400 {
					println(n, w)
				}
			}
			println("--", n, time.Since(t0).String())
		}
	}
	r, err := ParseAny(p.SSA, p.InRepo, p.Func("github.com/teamlint/baron/svcdef/svcparse", "ParseService"), func(string) bool { return true })
	t.Log(time.Since(t0), err)
	if r == nil {
		return
	}
	t.Log(r.States, r.Edges, r.Classes, r.Returned)
	for _, f := range append(append(r.Safe, r.Kind...), r.Unsure...) {
		t.Log(p.SSA.Fset.Position(f.Pos), f.Key, f.Msg)
	}
}
