package checks

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C12", Rule: "Evaluates main.main, svcdef.New and the exported functions which start an analysis symbolically, with everything they call. For every external operation that can fail (opening and reading files, walking directories, running protoc, parsing, rendering, creating directories and files, writing, closing written files) the condition that it is performed and fails must exclude that the program ends with exit code 0 (for the other roots: that a nil error is returned). Inside a walk the callback must return the error. The documented exceptions are taken out by what they are: removing files, gofmt, rendering which only ends up in a log message, the analysis in a temporary directory that finds out whether there is a service (which must then end the run before anything is written).",
		Assumptions: []string{"the libraries report their failures through the error they return"}, Run: runC12})
}

// harmless names operations whose failure is allowed to have no consequence.
func harmless(n string) bool {
	switch n {
	case "os.Remove", "os.RemoveAll", "go/format.Source", "os.Stat", "os.Lstat", "os/exec.LookPath":
		return true
	}
	return strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "(*github.com/spf13/pflag.") || strings.HasPrefix(n, "github.com/spf13/pflag.") ||
		strings.HasPrefix(n, "github.com/pkg/errors.") || strings.HasPrefix(n, "errors.") || isLogName(n)
}

func isLogName(n string) bool {
	return strings.Contains(n, "sirupsen/logrus.") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.Logger)")
}

func runC12(c *Ctx, r *Report) {
	m, err := c.MainEval(false)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	e := m.e
	r.Analysed["functions"] = funcsAnalysed(e)
	ok, unsure := m.exit0()
	for _, ef := range unsure {
		r.Unknown("exit code of %s", e.P(ef.Pos))
	}
	c.swallowed(r, e, ok, "the program still ends with exit code 0", mutations(e), tempSpans(e))

	lexer := func(n string) bool { return strings.Contains(n, "/svcparse.SvcLexer)") }
	parser := func(n string) bool { return strings.Contains(n, "/svcparse.") }
	analysis := func(n string) bool { return strings.Contains(n, "/svcparse.") || strings.HasSuffix(n, "/svcdef.New") }
	none := func(string) bool { return false }
	var roots []string
	for _, x := range []struct {
		pkg, name string
		opaque    func(string) bool
	}{
		{"svcdef", "New", parser},
		{"svcdef", "NewFromString", analysis},
		{"internal/parsesvcname", "FromReaders", analysis},
		{"internal/execprotoc", "getProtocOutput", none},
		{"gengokit/httptransport", "Field.GenQueryUnmarshaler", none},
		{"gengokit/httptransport", "OneofField.GenQueryUnmarshaler", none},
		{"gengokit/httptransport", "NewMethod", none},
		{"gengokit/httptransport", "FuncSourceCode", none},
		{"gengokit/httptransport", "AllFuncSourceCode", none},
	} {
		re := c.RootEval(x.pkg, x.name, x.opaque)
		if re == nil {
			continue
		}
		roots = append(roots, x.pkg+"."+x.name)
		c.swallowed(r, re.e, re.ok, x.name+" still returns without an error", mutations(re.e), nil)
	}
	// the parser of the annotations: every function of it by itself
	if sp := c.P.Spkg[c.mod("svcdef/svcparse")]; sp != nil {
		may := c.canFail()
		for _, n := range sortedKeys(sp.Members) {
			fn, ok := sp.Members[n].(*ssa.Function)
			if !ok || !may[fn.String()] {
				continue
			}
			self := fn.String()
			re := c.RootEval("svcdef/svcparse", n, func(n string) bool {
				return lexer(n) || may[n] && n != self && strings.Contains(n, "/svcparse.") && !strings.Contains(n, "(")
			})
			roots = append(roots, "svcdef/svcparse."+n)
			c.swallowed(r, re.e, re.ok, n+" still returns without an error", nil, nil)
		}
	}
	r.Analysed["roots"] = roots
}

// swallowed judges every operation that can fail: after a failure ok is
// impossible.
func (c *Ctx) swallowed(r *Report, e *gsa.Engine, ok Node, complaint string, muts []*mutation, temp []*tempSpan) {
	fs := failures(e)
	counts := map[string]int{}
	may := c.canFail()
	for _, f := range fs {
		n := f.ef.Name
		if harmless(n) || strings.Contains(n, "/svcparse.") && strings.Contains(n, ".UnGet") {
			continue
		}
		if strings.Contains(n, moduleMark) && !may[n] && c.repoFunc(n) {
			continue // a recursion that can return no error
		}
		if strings.HasPrefix(n, "(*os.File).Close") && !written(e, f.ef.Args[0], muts) {
			continue
		}
		if n == "(*text/template.Template).Execute" && !shown(e, f.ef) || panics(e, f) {
			continue
		}
		counts[n]++
		what := "a failure of " + n + " in " + stackName(f.ef) + " is not swallowed"
		key := "swallowed " + n + " in " + stackName(f.ef)
		if l := walkOf(f.ef); l != nil {
			r.obligeX(e, e.B.And(f.fail, walkGoesOn(e, l)), key, f.ef, what, "when "+n+" fails the walk goes on", opaqueErr)
			continue
		}
		bad := e.B.And(ok, f.fail)
		if strings.Contains(n, "/svcparse.") {
			bad = withoutHTTP(e, bad, f.err)
		}
		if sp := spanOf(temp, f.ef); sp != nil {
			// finding out whether there is a service: the run may end, but
			// nothing may be written
			for _, w := range muts {
				if w.kind != "remove" && w.ef.Seq > sp.end {
					r.obligeX(e, e.B.And(w.ef.Cond, f.fail), key+" before "+w.ef.Name, f.ef, what, "when "+n+" fails the service is generated nevertheless ("+w.ef.Name+")", opaqueErr)
				}
			}
			continue
		}
		r.obligeX(e, bad, key, f.ef, what, "when "+n+" fails, "+complaint, opaqueErr)
	}
	ops, _ := r.Analysed["operations"].([]string)
	for k, v := range counts {
		ops = append(ops, k+" ×"+itoa(v))
	}
	sort.Strings(ops)
	r.Analysed["operations"] = ops
}

func itoa(i int) string {
	s := ""
	for {
		s = string(rune('0'+i%10)) + s
		if i /= 10; i == 0 {
			return s
		}
	}
}

// stackName names the function a call is made in.
func stackName(ef *gsa.Effect) string {
	if ef.Fn == nil {
		if len(ef.Stack) > 0 {
			s := ef.Stack[len(ef.Stack)-1]
			return s[strings.LastIndexByte(s, '/')+1:]
		}
		return "?"
	}
	s := ef.Fn.String()
	return s[strings.LastIndexByte(s, '/')+1:]
}

func walkOf(ef *gsa.Effect) *gsa.Loop {
	for _, l := range ef.Loops {
		if l.Kind == "walk" {
			return l
		}
	}
	return nil
}

// walkGoesOn is the condition that the callback of a walk returns nothing
// that ends the walk with an error.
func walkGoesOn(e *gsa.Engine, l *gsa.Loop) Node {
	if len(l.Results) == 0 {
		return gsa.False
	}
	n := gsa.False
	for _, a := range l.Results[0] {
		c := e.B.And(a.C, l.Back)
		if s := a.T.String(); strings.HasSuffix(s, ".SkipDir") || strings.HasSuffix(s, ".SkipAll") {
			n = e.B.Or(n, c)
		} else {
			n = e.B.Or(n, e.B.And(c, e.NilNode(a.T)))
		}
	}
	return n
}

// tempSpan is the time between the creation and the removal of a temporary
// directory.
type tempSpan struct {
	mk, rm     *gsa.Effect
	begin, end int
}

func tempSpans(e *gsa.Engine) []*tempSpan {
	var out []*tempSpan
	for _, m := range mutations(e) {
		if m.kind != "temp" || m.ef.Res == nil {
			continue
		}
		sp := &tempSpan{mk: m.ef, begin: m.ef.Seq}
		for _, x := range e.Effects {
			if x.Kind == "call" && strings.HasPrefix(x.Name, "os.Remove") && x.Seq > sp.begin && refersTo(x.Args[0], m.ef.Res) {
				sp.rm = x
				if x.Seq > sp.end {
					sp.end = x.Seq
				}
			}
		}
		if sp.rm != nil {
			out = append(out, sp)
		}
	}
	return out
}

func refersTo(g GV, t *Term) bool {
	for _, a := range g {
		if a.T.Contains(t) {
			return true
		}
	}
	return false
}

func spanOf(sps []*tempSpan, ef *gsa.Effect) *tempSpan {
	for _, s := range sps {
		if ef.Seq >= s.begin && ef.Seq <= s.end {
			return s
		}
	}
	return nil
}

// written says whether g is a file that was created to be written.
func written(e *gsa.Engine, g GV, muts []*mutation) bool {
	for _, m := range muts {
		if m.kind == "create" && m.ef.Res != nil && refersTo(g, m.ef.Res) {
			return true
		}
	}
	return false
}

// shown says whether the text a template is rendered to goes anywhere but
// into messages.
func shown(e *gsa.Engine, ef *gsa.Effect) bool {
	if len(ef.Args) < 2 {
		return true
	}
	buf := unmk(ef.Args[1].One())
	if buf == nil {
		return true
	}
	isText := func(t *Term) bool { return false }
	if tpl := ef.Args[0]; len(tpl) > 0 {
		isText = func(t *Term) bool {
			found := false
			t.Walk(func(x *Term) bool {
				if x.Op == "call" && x.CallName() == "executed" {
					for _, a := range tpl {
						found = found || a.T == x.Args[0]
					}
				}
				return !found
			})
			return found
		}
	}
	for _, x := range e.Effects {
		if x == ef || x.Seq < ef.Seq {
			continue
		}
		switch {
		case x.Kind == "mapupdate", x.Kind == "call" && !harmless(x.Name), x.Kind == "read":
			for _, a := range x.Args {
				if refersTo(a, buf) {
					return true
				}
				for _, b := range a {
					if isText(b.T) {
						return true
					}
				}
			}
		}
	}
	return false
}

func unmk(t *Term) *Term {
	if t != nil && t.Op == "mk" {
		return t.Args[0]
	}
	return t
}

// panics says that a failure makes the program panic (template.Must).
func panics(e *gsa.Engine, f *failure) bool {
	n := f.fail
	for _, x := range e.Effects {
		if x.Kind == "must" && x.Seq > f.ef.Seq && refersTo(x.Args[1], f.err) {
			n = e.B.And(n, e.B.Not(x.Cond))
		}
	}
	return n != f.fail && n == gsa.False
}

// withoutHTTP leaves out what is documented: there is no service in a file
// (the end of the input), or a method without HTTP annotations (an error that
// says it is Optional), or the end of the service.
func withoutHTTP(e *gsa.Engine, n Node, err *Term) Node {
	for v := range e.B.Support(n) {
		t := e.VarTerm(v)
		if !t.Contains(err) {
			continue
		}
		doc := strings.Contains(t.String(), "svcparse.ErrSvcDefEnd")
		switch {
		case t.Op == "typeis":
			typ, _ := t.X.(types.Type)
			doc = typ != nil && hasMethod(typ, "Optional")
		case t.Op == "eq":
			for _, a := range t.Args {
				s := a.String()
				doc = doc || s == "io.EOF" || s == "io.ErrUnexpectedEOF"
			}
		case t.Op == "call" || t.Op == "res":
			s := t.String()
			doc = strings.Contains(s, "io.EOF") || strings.Contains(s, "io.ErrUnexpectedEOF") || strings.Contains(s, ".Optional(") || strings.HasPrefix(s, "errors.As(")
		}
		if doc {
			n = e.B.Restrict(n, v, false)
		}
	}
	return n
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

func (c *Ctx) repoFunc(name string) bool {
	m, ok := c.cache["repofuncs"].(map[string]bool)
	if !ok {
		m = map[string]bool{}
		for _, fn := range c.repoFns() {
			m[fn.String()] = true
		}
		c.cache["repofuncs"] = m
	}
	return m[name]
}

// repoFns are the functions of the repository which have a body, in a fixed
// order.
func (c *Ctx) repoFns() []*ssa.Function {
	if m, ok := c.cache["repofns"].([]*ssa.Function); ok {
		return m
	}
	var m []*ssa.Function
	for fn := range ssautil.AllFunctions(c.P.SSA) {
		if c.P.InRepo(fn) && len(fn.Blocks) > 0 {
			m = append(m, fn)
		}
	}
	sort.Slice(m, func(i, j int) bool {
		if m[i].String() != m[j].String() {
			return m[i].String() < m[j].String()
		}
		return m[i].Pos() < m[j].Pos()
	})
	c.cache["repofns"] = m
	return m
}
