package checks

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C34", Rule: "Expands the templates of generic services and evaluates each function of the generated packages that returns an error, the client command's main and server.Run symbolically, with everything they call. For every operation in it that can fail (reading and parsing a request or an answer, encoding it, connecting, subscribing, listening, calling the service) the condition that it is performed and fails must exclude that the function returns a nil error; for the client's main, that it goes on; for the goroutines of Run, that the error is not sent on the channel Run waits for.",
		Assumptions: []string{"the libraries report their failures through the error they return"}, Run: runC34})
}

func runC34(c *Ctx, r *Report) {
	n := 0
	for _, wd := range c.worlds() {
		if wd.id != "all/several" && wd.id != "all/kinds" && wd.id != "grpc/mixed" && wd.id != "nats/mixed" && wd.id != "all/nohttp" {
			continue
		}
		b := c.buildWorld(wd)
		for _, p := range b.bad {
			r.Viol(p.key, 0, "%s (service %s)", p.text, wd.id)
		}
		for _, u := range b.unknown {
			r.Unknown("%s (service %s)", u, wd.id)
		}
		if len(b.bad)+len(b.unknown) > 0 {
			continue
		}
		b.runEnds(r)
		for _, fn := range b.generated() {
			rs := fn.Signature.Results()
			switch {
			case rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), errT):
				x := b.evalFunc(fn, gsa.Policy{Recur: 1})
				n++
				b.reports(r, x.e, fn, x.ok, "still returns no error")
				if b.takes(fn, "*net/http.Response") {
					b.refused(r, x.e, fn, x.ok)
				}
			case rs.Len() == 0 && b.takes(fn, "error") && b.takes(fn, "net/http.ResponseWriter"):
				n++
				b.answers(r, b.evalFunc(fn, gsa.Policy{Recur: 1}), fn)
			case fn.Name() == "main":
				x := b.evalFunc(fn, gsa.Policy{Recur: 1})
				n++
				b.reports(r, x.e, fn, x.ok, "still ends as if it had worked")
			}
		}
	}
	r.Analysed["functions"] = n
}

// generated lists the functions of the generated packages.
func (b *built) generated() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(b.program().SSA) {
		if fn.Pkg == nil || fn.Parent() != nil || fn.Blocks == nil || fn.Synthetic != "" {
			continue
		}
		if p := fn.Pkg.Pkg.Path(); strings.HasPrefix(p, "zqtest/") && p != zqHarness && !b.protoc(fn) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// reports judges every operation of fn that can fail.
func (b *built) reports(r *Report, e *gsa.Engine, fn *ssa.Function, ok Node, complaint string) {
	name := fn.String()
	name = name[strings.LastIndexByte(name, '/')+1:]
	fs := failures(e)
	for _, f := range fs {
		n := f.ef.Name
		if harmless(n) || strings.HasSuffix(n, ".Close") || retried(e, fs, f) {
			continue
		}
		n = operation(n)
		r.obligeX(e, e.B.And(ok, f.fail), "swallowed "+n+" in "+name, nil, "a failure of "+n+" in "+name+" is reported ("+b.w.id+")", "when "+n+" fails in the generated "+name+", it "+complaint+" (service "+b.w.id+")", opaqueErr)
	}
}

// operation is a name for what is called.
func operation(n string) string {
	if strings.HasPrefix(n, "dynamic:") {
		if n = strings.TrimPrefix(n, "dynamic:"); strings.ContainsAny(n, "(‹") {
			n = "the endpoint"
		}
	}
	if n = n[strings.LastIndexByte(n, '/')+1:]; strings.Contains(n, ")") && !strings.Contains(n, "(") {
		n = strings.Replace(n, ")", "", 1)
	}
	return n
}

// retried says that after a failure of f the same is tried again on something
// else: whether that fails is what counts.
func retried(e *gsa.Engine, fs []*failure, f *failure) bool {
	n := len(f.ef.Args)
	if n < 2 {
		return false
	}
	for _, g := range fs {
		if g.ef.Seq > f.ef.Seq && g.ef.Name == f.ef.Name && len(g.ef.Args) == n && e.TermOf(g.ef.Args[n-1]) == e.TermOf(f.ef.Args[n-1]) && e.Implies(f.fail, g.ef.Cond) {
			return true
		}
	}
	return false
}

// runEnds decides whether server.Run waits for its transports and ends when
// one of them fails.
func (b *built) runEnds(r *Report) {
	fn := b.program().Func(zqSvcPath+"/server", "Run")
	if fn == nil {
		r.Unknown("server.Run not found (service %s)", b.w.id)
		return
	}
	p := b.program()
	x := b.evalFunc(fn, gsa.Policy{Recur: 1, Go: true, MaxDepth: 60, Inline: func(fn *ssa.Function) bool {
		return p.InRepo(fn) && !b.protoc(fn)
	}})
	e := x.e
	// the channels Run waits for
	var chans []*Term
	waits := gsa.False
	lost := ""
	for _, ef := range e.Effects {
		switch {
		case ef.Kind == "recv" && ef.Fn == fn:
			waits = e.B.Or(waits, ef.Cond)
			for _, a := range ef.Args[0] {
				chans = append(chans, a.T)
			}
		case ef.Kind == "select":
			lost = "a select"
		case b.lostCall(ef) != "" && !strings.Contains(ef.Name, zqPBPath+".Register"):
			lost = b.lostCall(ef)
		}
	}
	if lost != "" {
		r.Unknown("whether server.Run ends when a transport fails: %s (service %s)", lost, b.w.id)
		return
	}
	r.obligeX(e, e.B.And(x.normal, e.B.Not(waits)), "run waits", nil, "server.Run waits for a transport to fail ("+b.w.id+")", "the generated server.Run ends although no transport failed (service "+b.w.id+")", opaqueErr)
	for _, f := range failures(e) {
		n := f.ef.Name
		if harmless(n) || strings.HasSuffix(n, ".Close") {
			continue
		}
		told := gsa.False
		for _, s := range e.Effects {
			if s.Kind != "send" || s.Seq < f.ef.Seq {
				continue
			}
			for _, c := range s.Args[0] {
				for _, w := range chans {
					if c.T != w {
						continue
					}
					for _, v := range s.Args[1] {
						told = e.B.Or(told, e.B.And(s.Cond, c.C, v.C, e.B.Not(e.NilNode(v.T))))
					}
				}
			}
		}
		n = operation(n)
		r.obligeX(e, e.B.And(f.fail, e.B.Not(told)), "run goes on after "+n, nil, "server.Run ends when "+n+" fails ("+b.w.id+")", "when "+n+" fails the generated server.Run goes on (service "+b.w.id+")", opaqueErr)
	}
}

// protoc says that a function is of the code that protoc's plugins generate.
func (b *built) protoc(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == zqPBPath && strings.HasPrefix(b.fset.Position(fn.Pos()).Filename, "(protoc")
}

// takes says whether a function has a parameter of a type.
func (b *built) takes(fn *ssa.Function, typ string) bool {
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if ps.At(i).Type().String() == typ {
			return true
		}
	}
	return false
}

// statusOf evaluates a number made of the status of an answer; scale is by how
// much the status is divided.
func statusOf(t *Term) (scale int64, is bool) {
	if t.Op == "op" && t.Aux == "/" && len(t.Args) == 2 {
		if k, ok := t.Args[1].IntVal(); ok && k > 0 {
			s, is := statusOf(t.Args[0])
			return s * k, is
		}
	}
	return 1, strings.HasSuffix(t.String(), ".StatusCode")
}

// statusTest is a comparison of the status of an answer with a number.
func statusTest(t *Term) (k int64, holds func(s int64) bool) {
	if len(t.Args) != 2 {
		return 0, nil
	}
	a, c := t.Args[0], t.Args[1]
	scale, ok := statusOf(a)
	swap := !ok
	if swap {
		a, c = c, a
		scale, ok = statusOf(a)
	}
	k, num := c.IntVal()
	if !ok || !num {
		return 0, nil
	}
	k2, h := statusCompare(t.Op, swap, k)
	if h == nil {
		return 0, nil
	}
	return k2 * scale, func(s int64) bool { return h(s / scale) }
}

func statusCompare(op string, swap bool, k int64) (int64, func(s int64) bool) {
	switch {
	case op == "eq":
		return k, func(s int64) bool { return s == k }
	case op == "lt" && !swap:
		return k, func(s int64) bool { return s < k }
	case op == "lt":
		return k, func(s int64) bool { return k < s }
	case op == "le" && !swap:
		return k, func(s int64) bool { return s <= k }
	case op == "le":
		return k, func(s int64) bool { return k <= s }
	}
	return 0, nil
}

// refused decides whether an answer whose status is not 200 is an error. The
// numbers the status is compared with part all statuses into ranges which come
// out the same; each range is decided.
func (b *built) refused(r *Report, e *gsa.Engine, fn *ssa.Function, ok Node) {
	name := fn.Name()
	type test struct {
		v     int
		holds func(int64) bool
	}
	var tests []test
	marks := []int64{100, 199, 200, 201, 299, 300, 400, 500, 599}
	for v := range e.B.Support(ok) {
		t := e.VarTerm(v)
		if k, h := statusTest(t); h != nil {
			tests = append(tests, test{v, h})
			marks = append(marks, k-1, k, k+1)
		} else if strings.Contains(t.String(), ".StatusCode") {
			r.Unknown("which statuses %s takes for an error: %s (service %s)", name, short(t.String(), 100), b.w.id)
			return
		}
	}
	for _, s := range marks {
		if s == 200 || s < 100 || s > 599 {
			continue
		}
		bad := ok
		for _, t := range tests {
			bad = e.B.Restrict(bad, t.v, t.holds(s))
		}
		if v := r.obligeX(e, bad, "status of "+name, nil, "an answer with a status other than 200 is an error of "+name+" ("+b.w.id+")", "the generated "+name+" takes an answer with status "+itoa(int(s))+" for a success (service "+b.w.id+")", opaqueErr); v != holds {
			return
		}
	}
}

// answers decides whether a function that answers with an error does so with
// a status of its own.
func (b *built) answers(r *Report, x *rootEval, fn *ssa.Function) {
	e, name := x.e, fn.Name()
	set := gsa.False
	first := 0
	for _, ef := range e.Effects {
		if ef.Kind != "call" {
			continue
		}
		if b.lostCall(ef) != "" {
			r.Unknown("what %s answers: %s (service %s)", name, b.lostCall(ef), b.w.id)
			return
		}
		switch {
		case strings.HasSuffix(ef.Name, ".WriteHeader") && len(ef.Args) > 0:
			set = e.B.Or(set, ef.Cond)
			for _, a := range ef.Args[len(ef.Args)-1] {
				if s, ok := a.T.IntVal(); ok && s < 400 && e.Sat(e.B.And(ef.Cond, a.C)) {
					r.Viol("answer of "+name, 0, "the generated %s answers a failed request with status %d (service %s)", name, s, b.w.id)
					return
				}
			}
		case strings.HasSuffix(ef.Name, "ResponseWriter).Write") && first == 0:
			first = ef.Seq
			r.obligeX(e, e.B.And(ef.Cond, e.B.Not(set)), "answer of "+name, nil, "the status of a failure is set before the answer of "+name+" ("+b.w.id+")", "the generated "+name+" answers a failed request with status 200 (service "+b.w.id+")", opaqueErr)
		}
	}
	r.obligeX(e, e.B.And(x.normal, e.B.Not(set)), "answer of "+name, nil, name+" sets the status of a failure ("+b.w.id+")", "the generated "+name+" answers a failed request with status 200 (service "+b.w.id+")", opaqueErr)
}
