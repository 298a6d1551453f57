package checks

import (
	"strings"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C08", Rule: "Evaluates main.main symbolically. For every operation that changes a file below the service directory: no reading, parsing, rendering or running of protoc comes after it or in the same loop, it is not performed when one of those failed, and what it writes is held in memory by then.", Run: runC08})
	register(&Check{ID: "C11", Rule: "Evaluates main.main symbolically under --start. Creating the file must be impossible when the check of that same path found it (or exclude it by O_EXCL); every exit with code 0 must imply that the file was created, that the rendered definition was written to it whole and that none of this failed; nothing else is created but its directory.",
		Assumptions: []string{"no other process creates the file between the check and the creation"}, Run: runC11})
}

// prepares says that an operation belongs to making up what is written.
func prepares(n string) bool {
	switch n {
	case "(*text/template.Template).Execute", "(*text/template.Template).Parse", "go/parser.ParseFile", "go/printer.Fprint", "(*go/printer.Config).Fprint", "go/format.Node",
		"io.ReadAll", "io/ioutil.ReadAll", "os.ReadFile", "io/ioutil.ReadFile", "os.Open", "os/exec.Command", "path/filepath.Walk", "path/filepath.WalkDir", "io/ioutil.ReadDir", "os.ReadDir":
		return true
	}
	return strings.HasPrefix(n, "(*os/exec.Cmd).") || strings.HasSuffix(n, "/svcdef.New") || strings.HasSuffix(n, "packages.Load")
}

// belowService lists the operations that change files below the service
// directory.
func (p *outPaths) belowService(muts []*mutation) []*mutation {
	var out []*mutation
	for _, x := range muts {
		for _, a := range x.path {
			cond := p.e.B.And(a.C, x.ef.Cond)
			if cond == gsa.False || !p.e.Sat(cond) {
				continue
			}
			pl, _, _ := p.classify(a.T, cond)
			if pl == svcFile || pl == svcOther || pl == svcUnknown || pl == svcSubdir {
				out = append(out, x)
				break
			}
			if pl == svcDir && x.kind != "mkdir" {
				out = append(out, x)
				break
			}
		}
	}
	return out
}

func runC08(c *Ctx, r *Report) {
	m, err := c.MainEval(false)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	e := m.e
	p, err := c.outPaths(m)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	r.Analysed["functions"] = funcsAnalysed(e)
	muts := mutations(e)
	ws := p.belowService(muts)
	if len(ws) == 0 {
		r.Unknown("no operation that writes below the service directory was found")
		return
	}
	fails := failures(e)
	var ops []string
	for _, w := range ws {
		ops = append(ops, w.ef.Name+" in "+stackName(w.ef))
		name := w.ef.Name + " in " + stackName(w.ef)
		key := "early " + name
		later := 0
		for _, x := range e.Effects {
			if x.Kind != "call" && x.Kind != "query" && x.Kind != "read" || !prepares(x.Name) || x == w.ef {
				continue
			}
			if x.Name == "(*text/template.Template).Execute" && !shown(e, x) {
				continue
			}
			if x.Name == "io.ReadAll" && x.Kind == "read" {
				continue // from memory
			}
			shared := false
			for _, l := range x.Loops {
				shared = shared || inLoop(w.ef, l)
			}
			if x.Seq > w.ef.Seq || shared {
				later++
				r.obligeX(e, e.B.And(w.ef.Cond, x.Cond), key, w.ef, name+" comes after "+x.Name+" in "+stackName(x),
					name+" changes the service directory before "+x.Name+" in "+stackName(x)+", which may fail", opaqueErr)
			}
		}
		if later == 0 {
			r.Ok("everything is read and rendered before %s", name)
		}
		for _, f := range fails {
			n := f.ef.Name
			if !prepares(n) || f.ef.Seq > w.ef.Seq || walkOf(f.ef) != nil || panics(e, f) || harmless(n) {
				continue
			}
			if n == "(*text/template.Template).Execute" && !shown(e, f.ef) {
				continue
			}
			r.obligeX(e, e.B.And(f.fail, w.ef.Cond), key+" despite "+n, w.ef, name+" is not performed when "+n+" in "+stackName(f.ef)+" fails",
				name+" changes the service directory although "+n+" in "+stackName(f.ef)+" failed", opaqueErr)
		}
		if w.kind != "create" {
			continue
		}
		c.heldInMemory(r, e, w)
	}
	r.Analysed["operations"] = ops
}

// heldInMemory checks that what is written to a file does not have to be read
// from somewhere else by then.
func (c *Ctx) heldInMemory(r *Report, e *gsa.Engine, w *mutation) {
	var srcs []*gsa.Effect
	arg := 1
	if strings.HasSuffix(w.ef.Name, ".WriteFile") {
		srcs = append(srcs, w.ef)
	} else {
		for _, x := range e.Effects {
			if x.Kind == "call" && x.Seq > w.ef.Seq && len(x.Args) > 1 && w.ef.Res != nil && (x.Name == "io.Copy" || x.Name == "io.CopyBuffer" || x.Name == "io.CopyN" || x.Name == "(*os.File).ReadFrom") && refersTo(x.Args[0], w.ef.Res) {
				srcs = append(srcs, x)
			}
		}
	}
	for _, x := range srcs {
		what := "what " + x.Name + " in " + stackName(x) + " writes is held in memory"
		for _, a := range x.Args[arg] {
			for _, v := range mapValues(e, a.T, 0) {
				src := unmk(v.T)
				switch {
				case e.InMemory(src), isString(src), src.Op == "call" && src.CallName() == "executed":
					r.Ok("%s", what)
				case src.Op == "res" && src.Args[0].Op == "call" && (src.Args[0].CallName() == "os.Open" || src.Args[0].CallName() == "os.OpenFile"), src.Op == "lookup" && strings.Contains(src.String(), "os.Open("):
					r.obligeX(e, e.B.And(x.Cond, a.C, v.C), "lazy "+x.Name+" in "+stackName(x), x, what, "what "+x.Name+" in "+stackName(x)+" writes is still to be read from "+short(src.String(), 120)+" when the output is already truncated", opaquePath)
				case src.Op == "lookup" && src.Args[0].Op == "makemap":
					// the previous files
					for _, y := range mapValues(e, src, 0) {
						if s := unmk(y.T); s != src && !e.InMemory(s) {
							r.obligeX(e, e.B.And(x.Cond, a.C, v.C), "lazy "+x.Name+" in "+stackName(x), x, what, "what "+x.Name+" in "+stackName(x)+" writes is still to be read from "+short(s.String(), 120)+" when the output is already truncated", opaquePath)
						}
					}
				default:
					r.Unknown("%s: %s", what, short(src.String(), 120))
				}
			}
		}
	}
}

func isString(t *Term) bool {
	return t.Typ != nil && (t.Typ.String() == "string" || t.Typ.String() == "[]byte") || t.Op == "cat" || t.Op == "const"
}

// mapValues lists what can be found in a map of the program.
func mapValues(e *gsa.Engine, t *Term, d int) GV {
	if t.Op == "mk" {
		t = t.Args[0]
	}
	if t.Op == "res" && t.Args[0].Op == "lookup" {
		t = t.Args[0]
	}
	if t.Op != "lookup" || t.Args[0].Op != "makemap" || d > 4 {
		return gsa.V(t)
	}
	var out GV
	for _, ef := range e.Effects {
		if ef.Kind == "mapupdate" && ef.Args[0].One() == t.Args[0] {
			for _, a := range ef.Args[2] {
				out = append(out, mapValues(e, a.T, d+1)...)
			}
		}
	}
	if len(out) == 0 {
		return gsa.V(t)
	}
	return out
}

func runC11(c *Ctx, r *Report) {
	m, err := c.MainEval(false)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	e := m.e
	p, err := c.outPaths(m)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	r.Analysed["functions"] = funcsAnalysed(e)
	start, help := gsa.True, gsa.True
	for _, ef := range e.Effects {
		for v := range e.B.Support(ef.Cond) {
			t := e.VarTerm(v)
			s := t.String()
			if t.Op == "load" && strings.Contains(s, "pflag.Bool") {
				switch {
				case strings.Contains(s, `"start"`):
					start = e.Atom(t)
				case strings.Contains(s, `"help"`), strings.Contains(s, `"version"`):
					help = e.B.And(help, e.B.Not(e.Atom(t)))
				}
			}
		}
	}
	if start == gsa.True {
		r.Unknown("the --start option is not found")
		return
	}
	mode := e.B.And(start, help)
	done := gsa.False // the file was created and written
	creates := 0
	fs := failures(e)
	notFailed := func(ef *gsa.Effect) Node {
		n := ef.Cond
		for _, f := range fs {
			if f.ef == ef {
				n = e.B.And(n, e.B.Not(f.fail))
			}
		}
		return n
	}
	content := func(x *gsa.Effect, g GV, key string) {
		for _, a := range g {
			cond := e.B.And(x.Cond, a.C, mode)
			if cond == gsa.False || !e.Sat(cond) {
				continue
			}
			what := "what is written is the whole rendered definition"
			t := unmk(a.T)
			if t.Op == "call" && t.CallName() == "executed" {
				if txt := t.Args[0].String(); strings.Contains(txt, "syntax = ") {
					r.Ok("%s", what)
					continue
				}
			}
			if opaqueTerm(t) && !strings.Contains(t.String(), "executed(") {
				r.Unknown("%s: %s", what, short(t.String(), 120))
				continue
			}
			r.obligeX(e, cond, key, x, what, "--start writes "+short(t.String(), 150), opaquePath)
		}
	}
	for _, x := range mutations(e) {
		in := e.B.And(x.ef.Cond, mode)
		if in == gsa.False || !e.Sat(in) {
			continue
		}
		name := x.ef.Name + " in " + stackName(x.ef)
		if x.kind == "mkdir" {
			r.Ok("%s only makes directories", name)
			continue
		}
		if x.kind != "create" {
			r.obligeX(e, in, "start "+name, x.ef, "--start performs no "+name, "--start performs "+name, opaquePath)
			continue
		}
		creates++
		if !exclusive(x.ef) {
			for _, a := range x.path {
				cond := e.B.And(in, a.C)
				if cond == gsa.False || !e.Sat(cond) {
					continue
				}
				absent := gsa.False
				for v := range e.B.Support(cond) {
					t := e.VarTerm(v)
					absent = e.B.Or(absent, p.foundAbsent(t, a.T, cond))
				}
				r.obligeX(e, e.B.And(cond, e.B.Not(absent)), "overwrites "+name, x.ef, name+" is performed only when its path was found not to exist: "+short(a.T.String(), 150),
					"--start creates "+short(a.T.String(), 150)+" although that path was not found missing", opaquePath)
			}
		}
		// the content
		if strings.HasSuffix(x.ef.Name, ".WriteFile") {
			content(x.ef, x.ef.Args[1], "content "+name)
			done = e.B.Or(done, notFailed(x.ef))
			continue
		}
		ok := notFailed(x.ef)
		wrote := gsa.False
		for _, w := range e.Effects {
			if w.Kind != "call" || w.Seq < x.ef.Seq || len(w.Args) < 2 || x.ef.Res == nil || !refersTo(w.Args[0], x.ef.Res) {
				continue
			}
			switch w.Name {
			case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "io.Copy":
				content(w, w.Args[1], "content "+name)
				wrote = e.B.Or(wrote, notFailed(w))
			case "(*text/template.Template).Execute":
			}
		}
		for _, w := range e.Effects {
			if w.Kind == "call" && w.Name == "(*text/template.Template).Execute" && len(w.Args) > 1 && x.ef.Res != nil && refersTo(w.Args[1], x.ef.Res) {
				wrote = e.B.Or(wrote, notFailed(w))
			}
			if w.Kind == "call" && strings.HasPrefix(w.Name, "fmt.Fprint") && len(w.Args) > 0 && x.ef.Res != nil && refersTo(w.Args[0], x.ef.Res) {
				r.Unknown("%s is written to by %s", name, w.Name)
			}
		}
		done = e.B.Or(done, e.B.And(ok, wrote))
	}
	if creates == 0 {
		r.Unknown("no operation that creates the --start file was found")
		return
	}
	ok, unsure := m.exit0()
	for _, ef := range unsure {
		if e.Sat(ef.Cond, mode) {
			r.Unknown("exit code of %s under --start", e.P(ef.Pos))
		}
	}
	r.obligeX(e, e.B.And(ok, mode, e.B.Not(done)), "exit", nil, "exit code 0 under --start implies that the file was created and written", "--start ends with exit code 0 although the file was not written", opaqueErr)
	for _, f := range fs {
		n := f.ef.Name
		if harmless(n) || n == "(*text/template.Template).Execute" && !shown(e, f.ef) || panics(e, f) || !e.Sat(f.fail, mode) {
			continue
		}
		r.obligeX(e, e.B.And(ok, mode, f.fail), "exit despite "+n, f.ef, "--start does not end with exit code 0 when "+n+" fails", "--start ends with exit code 0 although "+n+" in "+stackName(f.ef)+" failed", opaqueErr)
	}
}

// exclusive says that a file is only created if it is not there.
func exclusive(ef *gsa.Effect) bool {
	if ef.Name != "os.OpenFile" || len(ef.Args) < 2 {
		return false
	}
	for _, a := range ef.Args[1] {
		if v, ok := a.T.IntVal(); !ok || v&0x80 == 0 {
			return false
		}
	}
	return true
}

// foundAbsent is the condition, in terms of atom t, that the file at path was
// looked for and not found.
func (p *outPaths) foundAbsent(t, path *Term, cond Node) Node {
	e := p.e
	call := func(x *Term) *Term {
		if x.Op == "res" && x.Args[0].Op == "call" && (x.Args[0].CallName() == "os.Stat" || x.Args[0].CallName() == "os.Lstat") {
			return x.Args[0]
		}
		return nil
	}
	var stat *Term
	neg := false
	switch {
	case t.Op == "eq":
		for i, x := range t.Args {
			if c := call(x); c != nil && t.Args[1-i].IsNil() {
				stat, neg = c, true
			}
		}
	case t.Op == "call" && (t.CallName() == "os.IsNotExist" || t.CallName() == "errors.Is"):
		stat = call(t.Args[0])
	}
	if stat == nil {
		return gsa.False
	}
	same := gsa.False
	for _, a := range gsa.Unbox(stat.Args[0]) {
		same = e.B.Or(same, e.B.And(a.C, e.EqNode(a.T, path)))
	}
	if e.Sat(cond, e.B.Not(same)) {
		return gsa.False
	}
	n := e.Atom(t)
	if neg {
		n = e.B.Not(n)
	}
	return n
}
