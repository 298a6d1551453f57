package checks

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C36", Rule: "Expands the templates of generic services and evaluates symbolically the functions that the generated HTTP handler and gRPC server give to ServerBefore. The context they return must be the one they got with values put on top in a loop over all headers (all metadata): in every iteration the header's value must be put under its name as received and under its lower-case form (the metadata's first value under its key and the key's HTTP form), the loop must not be left early, and the values of request-url and transport must be put on top of those of the headers. Each server made for an RPC must be given that ServerBefore.",
		Assumptions: []string{"go-kit's servers apply the functions given to ServerBefore to each request's context"}, Run: runC36})
}

func runC36(c *Ctx, r *Report) {
	n := 0
	for _, wd := range c.worlds() {
		if wd.id != "all/several" && wd.id != "grpc/mixed" && wd.id != "nats/mixed" {
			continue
		}
		b := c.buildWorld(wd)
		for _, p := range b.bad {
			r.Viol(p.key, 0, "%s (service %s)", p.text, wd.id)
		}
		for _, u := range b.unknown {
			r.Unknown("%s (service %s)", u, wd.id)
		}
		if len(b.bad)+len(b.unknown) > 0 {
			continue
		}
		for _, s := range []struct{ make, kind string }{{"MakeHTTPHandler", "http"}, {"MakeGRPCServer", "grpc"}} {
			if b.program().Func(zqPBPath, s.make) != nil {
				n += b.before(r, s.make, s.kind)
			}
		}
	}
	r.Analysed["functions"] = n
}

// before finds what a server does with the context of each request.
func (b *built) before(r *Report, maker, kind string) int {
	where := " (service " + b.w.id + ")"
	x := b.evalFunc(b.program().Func(zqPBPath, maker), gsa.Policy{Recur: 1})
	e := x.e
	name := ""
	given := map[*Term]bool{}
	for _, ef := range e.Effects {
		if (ef.Kind == "call" || ef.Kind == "query") && strings.HasSuffix(ef.Name, "/transport/"+kind+".ServerBefore") {
			if ef.Res != nil {
				given[ef.Res] = true
			}
			for _, l := range e.Effects {
				if l.Kind != "lstore" || l.Seq > ef.Seq || len(l.Args) < 2 || len(ef.Args) == 0 || !e.Implies(ef.Cond, l.Cond) {
					continue
				}
				to := e.TermOf(l.Args[0])
				if to.Op == "ia" && strings.Contains(e.TermOf(ef.Args[0]).String(), to.Args[0].String()) {
					if s := e.TermOf(l.Args[1]).String(); strings.HasPrefix(s, "func‹") {
						s = strings.TrimSuffix(strings.TrimPrefix(s, "func‹"), "›")
						name = s[strings.LastIndexByte(s, '.')+1:]
					}
				}
			}
		}
	}
	hooked, servers := false, 0
	for _, ef := range e.Effects {
		hooked = hooked || strings.Contains(ef.Name, "ServerBefore") || strings.HasPrefix(ef.Name, "dynamic:") || strings.Contains(ef.Name, "zqtest/")
		if strings.HasSuffix(ef.Name, "/transport/"+kind+".NewServer") {
			servers++
		}
	}
	if !hooked && servers > 0 {
		r.Viol(kind+" server", 0, "the servers that %s makes are given no ServerBefore: their requests' headers do not reach the service%s", maker, where)
		return 0
	}
	if name == "" || b.program().Func(zqPBPath, name) == nil {
		r.Unknown("what %s does with the context of requests%s", maker, where)
		return 0
	}
	for _, ef := range e.Effects {
		if ef.Kind != "call" && ef.Kind != "query" || !strings.HasSuffix(ef.Name, "/transport/"+kind+".NewServer") {
			continue
		}
		is := false
		opt := e.TermOf(ef.Args[len(ef.Args)-1])
		opt.Walk(func(t *Term) bool {
			is = is || given[t]
			return !given[t]
		})
		switch {
		case is:
			r.Ok("a server of %s puts the request's headers into the context%s", maker, where)
		case opt.Op == "const" || strings.HasPrefix(opt.String(), maker+"."):
			r.Viol(kind+" server", 0, "a server that %s makes is not given %s: its requests' headers do not reach the service%s", maker, name, where)
		default:
			r.Unknown("whether the servers of %s are given %s: %s%s", maker, name, opt, where)
		}
	}
	b.context(r, b.program().Func(zqPBPath, name), kind)
	return 1
}

// A ctxPair is a value put into a context.
type ctxPair struct{ key, val *Term }

// onTop lists what was put on top of a context, the last first.
func onTop(t *Term) (ps []ctxPair, base *Term) {
	for t.CallName() == "context.WithValue" && len(t.Args) == 3 {
		p := ctxPair{t.Args[1], t.Args[2]}
		if p.key.Op == "mk" {
			p.key = p.key.Args[0]
		}
		if p.val.Op == "mk" {
			p.val = p.val.Args[0]
		}
		ps = append(ps, p)
		t = t.Args[0]
	}
	return ps, t
}

// context judges what fn puts into the context.
func (b *built) context(r *Report, fn *ssa.Function, kind string) {
	where := " (service " + b.w.id + ")"
	x := b.evalFunc(fn, gsa.Policy{Recur: 1})
	e := x.e
	var ctx, in *Term
	for _, p := range fn.Params {
		t := e.Param(fn, p)
		switch p.Type().String() {
		case "context.Context":
			ctx = t
		default:
			in = t
		}
	}
	what := "the headers of a request"
	if kind == "grpc" {
		what = "the metadata of a call"
	}
	if ctx == nil || in == nil || len(x.res) != 1 {
		r.Unknown("the form of %s%s", fn.Name(), where)
		return
	}
	table := in
	if kind == "http" {
		table = e.Path(in, "Header")
	}
	// what is on top of the loop's values
	var pi *gsa.PhiInfo
	fixed := map[string]Node{}
	under := map[string]bool{}
	url := e.Path(in, "URL.Path")
	note := func(ps []ctxPair, c Node, below bool) {
		for _, p := range ps {
			k, ok := p.key.StrVal()
			if !ok {
				continue
			}
			v, isText := p.val.StrVal()
			right := k == "request-url" && p.val == url || k == "transport" && isText && v == "HTTPJSON"
			if right && below {
				under[k] = true
			} else if right {
				if _, is := fixed[k]; !is {
					fixed[k] = gsa.False
				}
				fixed[k] = e.B.Or(fixed[k], c)
			}
		}
	}
	for _, a := range x.res[0] {
		c := e.B.And(x.normal, a.C)
		if !e.Sat(c) {
			continue
		}
		ps, base := onTop(a.T)
		note(ps, c, false)
		switch o := e.PhiInfo(base); {
		case o != nil && o.Loop != nil && (pi == nil || pi == o):
			pi = o
		case base == ctx && a.C == gsa.True:
			r.Viol(kind+" none", 0, "the generated %s puts nothing of %s into the context%s", fn.Name(), what, where)
			return
		default:
			r.Unknown("the context that %s returns: %s%s", fn.Name(), a.T, where)
			return
		}
	}
	if pi == nil || pi.Loop.Kind != "map" || pi.Loop.Over != table {
		r.Unknown("how %s goes through %s%s", fn.Name(), what, where)
		return
	}
	for _, a := range pi.Init {
		ps, base := onTop(a.T)
		note(ps, gsa.True, true)
		switch {
		case base == ctx:
			r.Ok("%s keeps what the context holds%s", fn.Name(), where)
		case base.CallName() == "context.Background" || base.CallName() == "context.TODO":
			r.Viol(kind+" context", 0, "the generated %s drops the context of the request%s", fn.Name(), where)
		default:
			r.Unknown("what %s starts from: %s%s", fn.Name(), base, where)
			return
		}
	}
	if kind == "http" {
		for _, k := range []string{"request-url", "transport"} {
			c, is := fixed[k]
			switch {
			case is:
				r.obligeX(e, e.B.AndNot(x.normal, c), "http "+k, nil, k+" is in the context"+where, "the generated "+fn.Name()+" does not always put "+k+" into the context"+where, opaqueErr)
			case under[k]:
				r.Viol("http "+k+" header", 0, "a header named %s replaces what the generated %s puts into the context%s", k, fn.Name(), where)
			default:
				r.Viol("http "+k, 0, "the generated %s does not put the right %s into the context%s", fn.Name(), k, where)
			}
		}
	}
	// one iteration
	l := pi.Loop
	for _, ex := range l.Exits {
		r.obligeX(e, e.B.Simplify(ex.Cond, l.Entry), kind+" exit", nil, "all of "+what+" are gone through"+where, "the generated "+fn.Name()+" does not go through all of "+what+where, opaqueErr)
	}
	has := map[string]Node{"as received": gsa.False, "in the other form": gsa.False}
	absent, vague := gsa.False, gsa.False
	for _, a := range pi.Next {
		ps, base := onTop(a.T)
		if base != pi.Term {
			if base == ctx {
				r.Viol(kind+" last", 0, "the generated %s keeps only the last of %s%s", fn.Name(), what, where)
			} else {
				r.Unknown("what %s puts its values on: %s%s", fn.Name(), base, where)
			}
			return
		}
		seen := map[string]bool{}
		for _, p := range ps {
			form := keyForm(p.key, table, kind)
			right, known := first(p.val, table)
			switch {
			case form == "" || !known:
				vague = e.B.Or(vague, a.C)
			case right && !seen[form]:
				has[form] = e.B.Or(has[form], a.C)
			}
			seen[form] = true
		}
	}
	for v := range e.B.Support(l.Back) {
		absent = e.B.Or(absent, b.noValue(e, e.VarTerm(v), table))
	}
	for _, a := range pi.Next {
		for v := range e.B.Support(a.C) {
			absent = e.B.Or(absent, b.noValue(e, e.VarTerm(v), table))
		}
	}
	for _, form := range []string{"as received", "in the other form"} {
		bad := e.B.AndNot(l.Back, e.B.Or(has[form], absent))
		if e.Sat(e.B.And(bad, vague)) {
			r.Unknown("whether %s puts %s under the name %s%s", fn.Name(), what, form, where)
			continue
		}
		r.obligeX(e, bad, kind+" "+form, nil, fn.Name()+" puts "+what+" under the name "+form+where, "the generated "+fn.Name()+" does not put the value of each of "+what+" under the name "+form+where, opaqueErr)
	}
}

// noValue is when an atom says that the table has no value for a key.
func (b *built) noValue(e *gsa.Engine, t, table *Term) Node {
	s := t.String()
	if (t.Op == "eq" || strings.Contains(s, "==")) && strings.Contains(s, "lookup("+table.String()) && (strings.HasSuffix(s, "==nil") || strings.Contains(s, "len(")) {
		if strings.HasSuffix(s, "==nil") || strings.HasSuffix(s, "==0") || strings.HasPrefix(s, "0==") {
			return e.Atom(t)
		}
	}
	return gsa.False
}

// keyForm says which form of the name of an entry a key is.
func keyForm(k, table *Term, kind string) string {
	own := func(t *Term) bool { return t.Op == "mapkey" && t.Args[0] == table }
	if own(k) {
		return "as received"
	}
	if len(k.Args) == 1 && own(k.Args[0]) {
		switch n := k.CallName(); {
		case kind == "http" && n == "strings.ToLower", kind == "grpc" && (n == "net/http.CanonicalHeaderKey" || n == "net/textproto.CanonicalMIMEHeaderKey"):
			return "in the other form"
		case n == "strings.ToLower" || n == "strings.ToUpper" || n == "strings.Title" || n == "net/http.CanonicalHeaderKey":
			return "in a third form"
		}
	}
	return ""
}

// first says whether a value is the first one of the entry gone through.
func first(v, table *Term) (right, known bool) {
	own := func(t *Term) bool { return t.Op == "mapkey" && t.Args[0] == table }
	if _, ok := v.StrVal(); ok || own(v) {
		return false, true
	}
	if v.CallName() == "(net/http.Header).Get" && v.Args[0] == table {
		return own(v.Args[1]), own(v.Args[1]) || v.Args[1].Op == "const"
	}
	s := v.String()
	for _, a := range v.Args {
		if a.Op == "lookup" && a.Args[0] == table && own(a.Args[1]) || len(a.Args) == 2 && strings.HasPrefix(a.String(), "lookup(") && a.Args[0] == table && own(a.Args[1]) {
			return strings.HasSuffix(s, ")[0]"), true
		}
		for _, y := range a.Args {
			if y.Op == "lookup" && y.Args[0] == table && own(y.Args[1]) {
				return strings.HasSuffix(s, ")[0]"), true
			}
		}
	}
	return false, false
}
