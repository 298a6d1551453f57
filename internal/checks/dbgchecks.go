package checks

import (
	"os"
	"path/filepath"
	"strings"
)

func init() {
	register(&Check{ID: "DBG", Rule: "debug", Run: func(c *Ctx, r *Report) {
		m, err := c.MainEval(os.Getenv("FULL") != "")
		if err != nil {
			r.Unknown("%v", err)
			return
		}
		e := m.e
		for _, ef := range e.Effects {
			if ef.Kind == "lstore" {
				continue
			}
			st := []string{}
			for _, s := range ef.Stack {
				st = append(st, filepath.Base(s))
			}
			debug("%d %s %s %v %s RES %v IF %s STACK %s", ef.Seq, ef.Kind, ef.Name, argStrings(e, ef), loopStr(ef), ef.Res, e.CondString(ef.Cond), strings.Join(st, ">"))
		}
		for _, n := range notes(e) {
			debug("NOTE %s", n)
		}
	}})
}

func init() {
	register(&Check{ID: "ROOT", Rule: "debug", Run: func(c *Ctx, r *Report) {
		op := strings.Split(os.Getenv("OPAQUE"), ",")
		if os.Getenv("RECUR") != "" {
			c.Recur = int(os.Getenv("RECUR")[0] - 48)
		}
		m := c.RootEval(os.Getenv("RPKG"), os.Getenv("RFN"), func(n string) bool {
			for _, o := range op {
				if o != "" && strings.Contains(n, o) {
					return true
				}
			}
			return false
		})
		dumpRoot(m)
	}})
}

func dumpRoot(m *rootEval) {
	e := m.e
	for _, ef := range e.Effects {
		st := []string{}
		for _, s := range ef.Stack {
			st = append(st, filepath.Base(s))
		}
		debug("%d %s %s %v %s RES %v IF %s STACK %s", ef.Seq, ef.Kind, ef.Name, argStrings(e, ef), loopStr(ef), ef.Res, e.CondString(ef.Cond), strings.Join(st, ">"))
	}
	for i, x := range m.res {
		debug("RESULT %d %s", i, e.GVString(x))
		for _, a := range x {
			for _, l := range e.MemDump(a.T) {
				debug("   HAS %s", l)
			}
		}
	}
	for _, k := range sortedKeys(e.LoopTab) {
		l := e.LoopTab[k]
		debug("LOOP %s kind %s over %v unrolled %d entry %s", l.ID, l.Kind, l.Over, l.Unrolled, e.CondString(l.Entry))
		for _, x := range l.Exits {
			debug("   EXIT %s", e.CondString(x.Cond))
		}
		for _, x := range l.Phis {
			debug("   PHI %v INIT %s NEXT %s POST %s", x.Term, e.GVString(x.Init), e.GVString(x.Next), e.GVString(x.Post))
		}
		for _, x := range l.Mem {
			debug("   MEM %v %v INIT %s NEXT %s POST %s", x.Key, x.Term, e.GVString(x.Init), e.GVString(x.Next), e.GVString(x.Post))
		}
	}
	for _, n := range notes(e) {
		debug("NOTE %s", n)
	}
}

func init() {
	register(&Check{ID: "WROOT", Rule: "debug", Run: func(c *Ctx, r *Report) {
		for _, w := range c.worlds() {
			if w.id != os.Getenv("WORLD") {
				continue
			}
			b := c.buildWorld(w)
			debug("%v %v", b.bad, b.unknown)
			for _, f := range b.files {
				debug("##### %s\n%s", f.asset, f.text)
			}
			if os.Getenv("COMPOSED") != "" {
				dumpRoot(b.composed(os.Getenv("RPKG"), os.Getenv("RFN")))
				continue
			}
			dumpRoot(b.eval(os.Getenv("RPKG"), os.Getenv("RFN")))
		}
	}})
}
