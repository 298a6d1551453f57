package checks

import (
	"strings"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C13", Rule: "Evaluates main.main and the functions that work in temporary directories symbolically. For every temporary directory or file made, every way the function (or the program, through an exit) can end after that must be covered by a RemoveAll of it that is performed (deferred calls run at a return, not at an exit).",
		Assumptions: []string{"removing a directory the program just made does not fail"}, Run: runC13})
}

// stale are the locations of earlier versions, removed after a generation.
func (p *outPaths) stale(rest []*Term) bool {
	e := p.e
	whole := e.Join(rest...)
	lower := e.Call("strings.ToLower", strT, p.svcName)
	for _, s := range []*Term{e.Join(e.Str("svc/server/cli")), e.Join(e.Str("svc/client/cli")), e.Join(e.Str("cmd"), e.Cat(lower, e.Str("-server")))} {
		if s == whole {
			return true
		}
	}
	return false
}

func runC10(c *Ctx, r *Report) {
	m, err := c.MainEval(false)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	e := m.e
	p, err := c.outPaths(m)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	r.Analysed["functions"] = funcsAnalysed(e)
	met := map[string]bool{}
	muts := mutations(e)
	for _, x := range muts {
		if x.kind != "remove" && x.kind != "rename" && x.kind != "truncate" {
			continue
		}
		met[e.P(x.ef.Pos)] = true
		for _, a := range x.path {
			cond := e.B.And(a.C, x.ef.Cond)
			if cond == gsa.False || !e.Sat(cond) {
				continue
			}
			where := short(a.T.String(), 200)
			what := x.ef.Name + " in " + stackName(x.ef) + " removes only temporary or stale files: " + where
			key := "removed " + x.ef.Name + " in " + stackName(x.ef)
			pl, rest, wrong := p.classify(a.T, cond)
			switch {
			case pl == tempDir || pl == inTemp:
				r.Ok("%s", what)
			case pl == svcOther && x.kind == "remove" && p.staleAny(e, rest):
				r.obligeX(e, wrong, key, x.ef, what, x.ef.Name+" is applied to "+where+", which is not below the service directory", opaquePath)
				c.afterSuccess(r, e, muts, x)
			case pl == unknown, pl == svcUnknown:
				r.Unknown("%s", what)
			default:
				if len(rest) > 0 {
					where = short(e.Join(rest...).String(), 100) + " below the service directory"
				}
				r.obligeX(e, cond, key, x.ef, what, x.ef.Name+" is applied to "+where, opaquePath)
			}
		}
	}
	for _, re := range c.tempRoots() {
		for _, x := range mutations(re.e) {
			if x.kind != "remove" && x.kind != "rename" && x.kind != "truncate" {
				continue
			}
			met[re.e.P(x.ef.Pos)] = true
			for _, a := range x.path {
				what := x.ef.Name + " in " + stackName(x.ef) + " removes only temporary files: " + short(a.T.String(), 150)
				t := parts(re.e, a.T)[0]
				switch {
				case isTemp(t):
					r.Ok("%s", what)
				case opaqueTerm(a.T):
					r.Unknown("%s", what)
				default:
					r.obligeX(re.e, re.e.B.And(a.C, x.ef.Cond), "removed "+x.ef.Name+" in "+stackName(x.ef), x.ef, what, x.ef.Name+" is applied to "+short(a.T.String(), 200), opaquePath)
				}
			}
		}
	}
	r.Analysed["removals"] = sortedKeys(met)
	for _, s := range c.sitesOf(func(n string) bool {
		return strings.HasPrefix(n, "os.Remove") || n == "os.Rename" || n == "syscall.Unlink" || n == "syscall.Rmdir"
	}) {
		if !met[s.pos] {
			r.Unknown("%s in %s (%s) is not reached from main", s.name, s.fn, s.pos)
		}
	}
}

// staleAny is stale for an element taken out of a list.
func (p *outPaths) staleAny(e *gsa.Engine, rest []*Term) bool {
	if p.stale(rest) {
		return true
	}
	if len(rest) != 1 {
		return false
	}
	es, ok := elements(e, rest[0])
	if !ok || len(es) == 0 {
		return false
	}
	for _, x := range es {
		if !p.stale(parts(e, x)) {
			return false
		}
	}
	return true
}

// afterSuccess checks that a stale file is removed only when everything else
// is done.
func (c *Ctx) afterSuccess(r *Report, e *gsa.Engine, muts []*mutation, rm *mutation) {
	last := 0
	for _, w := range muts {
		if w.kind == "create" && w.ef.Seq > last {
			last = w.ef.Seq
			if w.ef.Seq > rm.ef.Seq {
				r.obligeX(e, e.B.And(w.ef.Cond, rm.ef.Cond), "early "+rm.ef.Name+" in "+stackName(rm.ef), rm.ef, "stale files are removed after "+w.ef.Name+" in "+stackName(w.ef),
					"stale files are removed before "+w.ef.Name+" in "+stackName(w.ef)+", which may fail", opaquePath)
			}
		}
	}
	for _, f := range failures(e) {
		n := f.ef.Name
		if f.ef.Seq > rm.ef.Seq || harmless(n) || strings.Contains(n, moduleMark) && !c.canFail()[n] && c.repoFunc(n) || walkOf(f.ef) != nil || strings.HasSuffix(n, ".Close") || panics(e, f) {
			continue
		}
		if n == "(*text/template.Template).Execute" && !shown(e, f.ef) {
			continue
		}
		r.obligeX(e, e.B.And(f.fail, rm.ef.Cond), "early "+rm.ef.Name+" in "+stackName(rm.ef), rm.ef, "stale files are not removed when "+n+" in "+stackName(f.ef)+" fails",
			"stale files are removed although "+n+" in "+stackName(f.ef)+" failed", opaqueErr)
	}
}

func runC13(c *Ctx, r *Report) {
	m, err := c.MainEval(false)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	met := map[string]bool{}
	c.removed(r, m.e, "main", m.normal, nil, met)
	for _, re := range c.tempRoots() {
		c.removed(r, re.e, re.name, re.normal, re.res, met)
	}
	r.Analysed["temporary directories"] = sortedKeys(met)
	r.Analysed["functions"] = funcsAnalysed(m.e)
	for _, s := range c.sitesOf(func(n string) bool {
		return n == "os.MkdirTemp" || n == "os.CreateTemp" || n == "io/ioutil.TempDir" || n == "io/ioutil.TempFile"
	}) {
		if !met[s.pos] {
			r.Unknown("%s in %s (%s) is not reached", s.name, s.fn, s.pos)
		}
	}
}

// removed checks the temporary directories and files made by one root.
func (c *Ctx) removed(r *Report, e *gsa.Engine, root string, normal Node, res []GV, met map[string]bool) {
	muts := mutations(e)
	for _, x := range muts {
		if x.kind != "temp" {
			continue
		}
		ef := x.ef
		met[e.P(ef.Pos)] = true
		what := "the temporary " + ef.Name + " in " + stackName(ef)
		key := "left " + ef.Name + " in " + stackName(ef)
		if ef.Res == nil {
			r.Unknown("%s: its result is not found", what)
			continue
		}
		inside := false
		for _, a := range x.path {
			inside = inside || isTemp(parts(e, a.T)[0])
		}
		if inside {
			r.Ok("%s lies in a temporary directory", what)
			continue
		}
		handed := false
		for _, g := range res {
			handed = handed || refersTo(g, ef.Res) && !errOnly(e, g, ef)
		}
		if handed {
			r.Ok("%s is handed to the caller of %s", what, root)
			continue
		}
		er := errOf(e, ef)
		if er == nil {
			r.Unknown("%s: its error is not found", what)
			continue
		}
		made := e.B.And(ef.Cond, e.NilNode(er))
		covered := func(before int) Node {
			n := gsa.False
			for _, y := range muts {
				if y.ef.Seq <= ef.Seq || y.ef.Seq > before || y.ef.Name != "os.RemoveAll" && !(y.ef.Name == "os.Remove" && strings.HasSuffix(ef.Name, "File") || y.ef.Name == "os.Remove" && strings.HasSuffix(ef.Name, "CreateTemp")) {
					continue
				}
				for _, a := range y.path {
					if isTemp(a.T) && a.T.Contains(ef.Res) {
						n = e.B.Or(n, e.B.And(y.ef.Cond, a.C))
					}
				}
			}
			return n
		}
		r.obligeX(e, e.B.And(made, normal, e.B.Not(covered(1<<60))), key, ef, what+" is removed when "+root+" returns", what+" is still there when "+root+" returns", opaqueErr)
		for _, x := range e.Effects {
			if x.Kind != "exit" || x.Seq < ef.Seq {
				continue
			}
			n := e.B.And(made, x.Cond)
			if n == gsa.False || !e.Sat(n) {
				continue
			}
			r.obligeX(e, e.B.And(n, e.B.Not(covered(x.Seq))), key+" at exit", x, what+" is removed before "+x.Name+" in "+stackName(x), what+" is still there when the program ends by "+x.Name+" in "+stackName(x), opaqueErr)
		}
	}
}

// errOnly says that g mentions the outcome of ef only in errors.
func errOnly(e *gsa.Engine, g GV, ef *gsa.Effect) bool {
	for _, a := range g {
		if !a.T.Contains(ef.Res) {
			continue
		}
		if a.T.Typ == nil || a.T.Typ.String() != "error" {
			return false
		}
	}
	return true
}
