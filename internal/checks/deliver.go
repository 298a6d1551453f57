package checks

import (
	"os"
	"strings"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C31", Rule: "Evaluates main.main symbolically. Generation must be given the definition svcdef.New returned for the files, the --client and --transport values, and the import paths of the directory of the definitions and of the service directory. An exit with code 0 after generation must imply that every file of the map it returned was created at its key below the service directory given to generation and that exactly its content was written without an error, and that the .pb.baron.go file was.", Run: runC31})
}

// output is a file the program creates with its content.
type output struct {
	x       *mutation
	ok      Node // created and written without an error
	content GV
	vague   bool // written in a way that is not followed
}

// outputs lists the files the program creates.
func outputs(e *gsa.Engine, fs []*failure) []*output {
	notFailed := func(ef *gsa.Effect) Node {
		n := ef.Cond
		for _, f := range fs {
			if f.ef == ef {
				n = e.B.And(n, e.B.Not(f.fail))
			}
		}
		return n
	}
	var out []*output
	for _, x := range mutations(e) {
		if x.kind != "create" {
			continue
		}
		if strings.HasSuffix(x.ef.Name, ".WriteFile") {
			out = append(out, &output{x: x, ok: notFailed(x.ef), content: x.ef.Args[1]})
			continue
		}
		ok := notFailed(x.ef)
		for _, w := range e.Effects {
			if w.Kind != "call" || w.Seq < x.ef.Seq || len(w.Args) < 2 || x.ef.Res == nil {
				continue
			}
			dst, src := 0, 1
			switch w.Name {
			case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "io.Copy", "(*os.File).ReadFrom", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).ReadFrom", "io.CopyBuffer":
			case "(*bytes.Buffer).WriteTo", "(*bytes.Reader).WriteTo":
				dst, src = 1, 0
			case "(*text/template.Template).Execute":
				if refersTo(w.Args[1], x.ef.Res) {
					out = append(out, &output{x: x, ok: e.B.And(ok, notFailed(w))})
				}
				continue
			case "(*os.File).Close", "(*os.File).Name", "(*os.File).Sync", "(*os.File).Stat", "(*os.File).Chmod", "(*bufio.Writer).Flush", "bufio.NewWriter", "bufio.NewWriterSize", "(*os.File).Fd":
				continue
			default:
				for _, a := range w.Args {
					if refersTo(a, x.ef.Res) {
						out = append(out, &output{x: x, ok: e.B.And(ok, w.Cond), vague: true})
						break
					}
				}
				continue
			}
			if refersTo(w.Args[dst], x.ef.Res) {
				out = append(out, &output{x: x, ok: e.B.And(ok, notFailed(w)), content: w.Args[src]})
			}
		}
	}
	return out
}

// held is what a reader gives: the bytes it was made from, or itself.
func held(e *gsa.Engine, t *Term) *Term {
	for {
		t = unmk(t)
		switch {
		case t.Op == "reader", t.Op == "op" && t.Aux == "conv":
			t = t.Args[0]
		case t.Op == "res" && t.Aux == "0" && (t.Args[0].CallName() == "io.ReadAll" || t.Args[0].CallName() == "io/ioutil.ReadAll"):
			t = t.Args[0].Args[0]
		default:
			return t
		}
	}
}

// deliver checks that every file generation returns is written.
func (c *Ctx) deliver(r *Report, m *mainEval, p *outPaths) {
	e := m.e
	fs := failures(e)
	ok, _ := m.exit0()
	ok = e.B.And(ok, p.at)
	filled := map[*Term]bool{} // the maps GenerateGokit fills
	values := true
	for _, ef := range e.Effects {
		if ef.Kind != "mapupdate" || len(ef.Args) < 3 {
			continue
		}
		for _, s := range ef.Stack {
			if strings.HasSuffix(s, "generator.GenerateGokit") {
				if t := ef.Args[0].One(); t != nil {
					filled[t] = true
					for _, a := range ef.Args[2] {
						values = values && unmk(a.T) != a.T
					}
				}
			}
		}
	}
	if len(filled) == 0 {
		r.Unknown("the map of the generated files is not found")
		return
	}
	baron, every := gsa.False, gsa.False
	vague := gsa.False // something is written, but not what is not known
	given := gsa.True  // facts about iterations
	n := 0
	judged := map[*gsa.Effect]bool{}
	for _, o := range outputs(e, fs) {
		if !judged[o.x.ef] {
			judged[o.x.ef] = true
			r.leftover(e, p, o.x)
		}
		name := o.x.ef.Name + " in " + stackName(o.x.ef)
		for _, a := range o.x.path {
			cond := e.B.And(o.ok, a.C)
			if cond == gsa.False || !e.Sat(cond) {
				continue
			}
			pl, rest, _ := p.classify(a.T, cond)
			if o.vague {
				if pl == baronFile || len(rest) == 1 && pl != nowhere {
					r.Unknown("how %s is written", name)
					vague = e.B.Or(vague, cond)
				}
				continue
			}
			if pl == baronFile {
				for _, v := range o.content {
					vc := e.B.And(cond, v.C)
					if vc == gsa.False {
						continue
					}
					if t := held(e, v.T); strings.Contains(t.String(), "executed(") && strings.Contains(t.String(), baronAsset) {
						baron = e.B.Or(baron, vc)
						r.Ok("%s writes what its template renders to the .pb.baron.go file", name)
					} else {
						r.obligeX(e, vc, "baron content "+name, o.x.ef, name+" writes what its template renders to the .pb.baron.go file", "the .pb.baron.go file gets "+short(t.String(), 150), opaquePath)
					}
				}
				continue
			}
			if len(rest) != 1 || pl == nowhere || pl == unknown {
				continue
			}
			mp, gv, sure := e.KeyOf(rest[0])
			if mp == nil || !filled[mp] {
				continue
			}
			n++
			if !sure {
				r.Unknown("the names of the files written by %s", name)
				continue
			}
			given = e.B.And(given, gv)
			if values {
				for v := range e.B.Support(cond) {
					t := e.VarTerm(v)
					if t.Op == "eq" && (t.Args[0].IsNil() && valueOf(t.Args[1], mp) || t.Args[1].IsNil() && valueOf(t.Args[0], mp)) {
						given = e.B.And(given, e.B.Not(e.Atom(t)))
					}
				}
			}
			for _, v := range o.content {
				vc := e.B.And(cond, v.C)
				if vc == gsa.False || !e.Sat(vc) {
					continue
				}
				t := held(e, v.T)
				what := name + " writes the content generated for that file"
				if t.Op == "lookup" && t.Args[0] == mp && t.Args[1] == rest[0] {
					every = e.B.Or(every, vc)
					r.Ok("%s", what)
					continue
				}
				if t.CallName() == "io.LimitReader" && opaqueTerm(t) {
					if l := held(e, t.Args[0]); l.Op == "lookup" && l.Args[0] == mp {
						r.Viol("content "+name, o.x.ef.Pos, "%s writes only the beginning of what was generated", name)
						vague = e.B.Or(vague, vc)
						continue
					}
				}
				if opaqueTerm(t) {
					r.Unknown("%s: %s", what, short(t.String(), 100))
					vague = e.B.Or(vague, vc)
					continue
				}
				r.obligeX(e, vc, "content "+name, o.x.ef, what, name+" writes something else than what was generated for the file: "+short(t.String(), 150), opaquePath)
			}
		}
	}
	r.obligeX(e, e.B.And(ok, e.B.Not(baron), e.B.Not(vague)), "baron", nil, "exit code 0 implies that the .pb.baron.go file was written", "the program ends with exit code 0 although the .pb.baron.go file was not written", opaqueErr)
	if n == 0 {
		r.Unknown("the operation that writes the generated files is not found")
		return
	}
	r.obligeX(e, e.B.And(ok, given, e.B.Not(every), e.B.Not(vague)), "every", nil, "exit code 0 implies that every generated file was written", "the program ends with exit code 0 although a generated file was not written", opaqueErr)
}

// leftover checks that nothing stays in a file from before.
func (r *Report) leftover(e *gsa.Engine, p *outPaths, x *mutation) {
	if !strings.HasSuffix(x.ef.Name, ".OpenFile") || len(x.ef.Args) < 2 || p.starting(x.ef.Cond) {
		return
	}
	fl := x.ef.Args[1].One()
	if fl == nil {
		return
	}
	n, ok := fl.IntVal()
	if !ok || n&int64(os.O_TRUNC|os.O_EXCL) != 0 {
		return
	}
	for _, w := range e.Effects {
		if w.Kind != "call" || len(w.Args) == 0 {
			continue
		}
		same := false
		switch w.Name {
		case "(*os.File).Truncate":
			same = x.ef.Res == nil || refersTo(w.Args[0], x.ef.Res)
		case "os.Truncate", "os.Remove", "os.RemoveAll", "os.Rename":
			for _, a := range w.Args[0] {
				for _, b := range x.path {
					same = same || a.T == b.T
				}
			}
		}
		if same {
			r.Unknown("whether %s in %s leaves what a file held before", x.ef.Name, stackName(x.ef))
			return
		}
	}
	r.Viol("leftover "+stackName(x.ef), x.ef.Pos, "%s in %s does not truncate the file: the end of a longer previous version stays in it", x.ef.Name, stackName(x.ef))
}

func valueOf(t, mp *Term) bool { return t.Op == "lookup" && t.Args[0] == mp }

// flagValue finds the value of a command-line option.
func (m *mainEval) flagValue(name string) *Term {
	var out *Term
	find := func(t *Term) {
		t.Walk(func(x *Term) bool {
			if x.Op == "load" && x.Args[0].Op == "call" && strings.Contains(x.Args[0].CallName(), "pflag.") && len(x.Args[0].Args) > 0 {
				if s, ok := x.Args[0].Args[0].StrVal(); ok && s == name {
					out = x
				}
			}
			return out == nil
		})
	}
	for _, ef := range m.e.Effects {
		for v := range m.e.B.Support(ef.Cond) {
			find(m.e.VarTerm(v))
		}
		for _, g := range ef.Args {
			for _, a := range g {
				find(a.T)
			}
		}
		if out != nil {
			return out
		}
	}
	return nil
}

func runC31(c *Ctx, r *Report) {
	m, err := c.MainEval(false)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	e := m.e
	p, err := c.outPaths(m)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	r.Analysed["functions"] = funcsAnalysed(e)
	isFlag := func(name string) func(t *Term) bool {
		return func(t *Term) bool {
			return t.Op == "load" && t.Args[0].Op == "call" && strings.Contains(t.Args[0].CallName(), "pflag.") && len(t.Args[0].Args) > 0 && t.Args[0].Args[0] == e.Str(name)
		}
	}
	pkgOf := func(ok func(dir *Term, cond Node) bool, cond *Node) func(t *Term) bool {
		return func(t *Term) bool {
			if t.Op != "load" || t.Args[0].Op != "fa" || t.Args[0].Aux != "PkgPath" {
				return false
			}
			found := false
			t.Walk(func(x *Term) bool {
				if x.Op == "call" && strings.HasSuffix(x.CallName(), "packages.Load") {
					for _, a := range x.Args[1:] {
						for _, y := range listed(e, a) {
							for _, b := range gsa.Unbox(y) {
								found = found || ok(b.T, e.B.And(*cond, b.C))
							}
						}
					}
					return false
				}
				return true
			})
			return found
		}
	}
	for _, fn := range []string{"GenerateGokit", "GenerateBaronFile"} {
		calls := m.callsOf("/generator." + fn)
		if len(calls) == 0 {
			r.Unknown("main does not call %s", fn)
		}
		for _, call := range calls {
			cond := call.cond
			field := func(f, what string, is func(*Term) bool) {
				g := e.Lift(func(ts []*Term) GV { return e.FieldOf(ts[0], f, nil) }, call.args[1])
				for _, a := range g {
					in := e.B.And(cond, a.C)
					if in == gsa.False || !e.Sat(in) {
						continue
					}
					cond = in
					good := is(a.T)
					cond = call.cond
					w := fn + " is given " + what
					if good {
						r.Ok("%s", w)
					} else {
						r.obligeX(e, in, fn+" "+f, nil, w, fn+" is given "+short(a.T.String(), 120)+" as "+f+", which is not "+what, opaquePath)
					}
				}
			}
			field("GenClient", "the value of --client", isFlag("client"))
			field("Transport", "the value of --transport", isFlag("transport"))
			if fn == "GenerateGokit" {
				field("GoPackage", "the import path of the service directory", pkgOf(func(d *Term, in Node) bool {
					pl, _, _ := p.classify(d, in)
					return pl == svcDir
				}, &cond))
			}
			field("PBPackage", "the import path of the directory of the definitions", pkgOf(func(d *Term, in Node) bool {
				pl, _, _ := p.classify(d, in)
				return pl == baronDir
			}, &cond))
			for _, a := range e.Under(call.args[0], call.cond) {
				s := e.Path(a.T, "Service.Name")
				r.Require(s != nil && s == p.svcName, fn+" definition", 0, fn+" is given the definition the analysis returned", fn+" is given "+short(a.T.String(), 120))
			}
		}
	}
	c.deliver(r, m, p)
}

// listed lists the elements of a slice term.
func listed(e *gsa.Engine, t *Term) []*Term {
	switch t.Op {
	case "app", "slicelit", "args":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, a)
		}
		return out
	}
	return []*Term{t}
}
