package checks

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C35", Rule: "Expands the templates of generic services and evaluates the initialisation and main of the generated server and client commands symbolically, with server.Run and the goroutines it starts; the flag package is modelled (registering a flag stores its default, parsing stores the value of each flag given). The address that reaches each operation that listens or dials (the debug server, HTTP, gRPC, NATS) must be the value of that transport's flag when the flag is given, otherwise that of its environment variables when one is set, otherwise the flag's default; and a transport is started exactly when that address is not empty (the debug server when debugging is on).",
		Assumptions: []string{"a flag's variable has the flag's default until flag.Parse stores the values of the flags given"}, Run: runC35})
}

// A setting is one use of an address: the flag and the environment variables
// that decide it, the stronger first.
type setting struct {
	name, flag string
	env        []string
}

var settings = map[string]*setting{
	"debug": {"the debug server's address", "debug.addr", []string{"DEBUG_ADDR"}},
	"http":  {"the HTTP address", "http.addr", []string{"HTTP_ADDR", "PORT"}},
	"grpc":  {"the gRPC address", "grpc.addr", []string{"GRPC_ADDR"}},
	"nats":  {"the NATS address", "nats.addr", []string{"NATS_ADDR"}},
}

// settingOf says which address an operation takes, and where.
func settingOf(e *gsa.Engine, ef *gsa.Effect) (kind string, arg int) {
	if ef.Kind != "call" && ef.Kind != "query" {
		return "", 0
	}
	switch n := ef.Name[strings.LastIndexByte(ef.Name, '/')+1:]; n {
	case "http.ListenAndServe":
		switch h := e.TermOf(ef.Args[1]).String(); {
		case strings.Contains(h, "mux.NewRouter"):
			return "http", 0
		case strings.Contains(h, "http.NewServeMux"):
			return "debug", 0
		}
	case "net.Listen":
		return "grpc", 1
	case "grpc.Dial":
		return "grpc", 0
	case "nats.go.Connect":
		return "nats", 0
	case "url.Parse":
		return "http", 0
	}
	return "", 0
}

// A flagVar is a flag that a command registers.
type flagVar struct {
	addr  *Term
	typ   types.Type
	def   GV
	given Node
	value *Term
}

// program35 is the evaluation of one generated command.
type program35 struct {
	b      *built
	r      *Report
	e      *gsa.Engine
	server bool
	flags  map[string]*flagVar
	vague  string // a use of the flag package that is not recognised
}

func runC35(c *Ctx, r *Report) {
	n := 0
	for _, wd := range c.worlds() {
		if wd.id != "all/several" && wd.id != "grpc/mixed" && wd.id != "nats/mixed" && wd.id != "all/nohttp" {
			continue
		}
		b := c.buildWorld(wd)
		for _, p := range b.bad {
			r.Viol(p.key, 0, "%s (service %s)", p.text, wd.id)
		}
		for _, u := range b.unknown {
			r.Unknown("%s (service %s)", u, wd.id)
		}
		if len(b.bad)+len(b.unknown) > 0 {
			continue
		}
		for _, path := range sortedKeys(b.program().Spkg) {
			if sp := b.program().Spkg[path]; strings.HasPrefix(path, "zqtest/") && sp.Pkg.Name() == "main" && sp.Func("main") != nil {
				n += b.configured(r, sp)
			}
		}
	}
	r.Analysed["addresses"] = n
}

func (b *built) configured(r *Report, sp *ssa.Package) int {
	x := b.program()
	e := x.RepoEngine(gsa.Policy{Recur: 1, Go: true, MaxDepth: 60, Inline: func(fn *ssa.Function) bool {
		return x.InRepo(fn) && !b.protoc(fn)
	}})
	p := &program35{b: b, r: r, e: e, server: !strings.HasSuffix(sp.Pkg.Path(), "-client"), flags: map[string]*flagVar{}}
	e.CallHook = p.hook
	var inits []string
	for n := range sp.Members {
		if strings.HasPrefix(n, "init#") {
			inits = append(inits, n)
		}
	}
	sort.Slice(inits, func(i, j int) bool {
		return len(inits[i]) < len(inits[j]) || len(inits[i]) == len(inits[j]) && inits[i] < inits[j]
	})
	for _, n := range inits {
		e.Eval(sp.Func(n))
	}
	e.Eval(sp.Func("main"))
	uses := map[string][]*gsa.Effect{}
	for _, ef := range e.Effects {
		if k, _ := settingOf(e, ef); k != "" {
			uses[k] = append(uses[k], ef)
		}
	}
	if p.vague != "" {
		r.Unknown("the flags of the generated %s: %s (service %s)", p.kind(), p.vague, b.w.id)
		return 0
	}
	if b.w.id == "all/several" {
		for _, k := range sortedKeys(settings) {
			if len(uses[k]) == 0 && (p.server || k != "debug") {
				r.Unknown("where the generated %s uses %s (service %s)", p.kind(), settings[k].name, b.w.id)
			}
		}
	}
	for _, k := range sortedKeys(uses) {
		p.judge(k, settings[k], uses[k])
	}
	if p.server && len(uses["debug"]) > 0 {
		p.debugging(uses["debug"])
	}
	return len(uses)
}

func (p *program35) kind() string {
	if p.server {
		return "server"
	}
	return "client"
}

// hook is what the flag package does.
func (p *program35) hook(e *gsa.Engine, name string, args []GV, cond Node, pos token.Pos) ([]GV, bool) {
	switch {
	case name == "os.LookupEnv":
		t := e.TermOf(args[0])
		v := e.Call("os.Getenv", strT, t)
		is := e.B.Or(e.Atom(e.Op("envset", "", types.Typ[types.Bool], t)), e.B.Not(e.EqNode(v, e.Str(""))))
		return []GV{gsa.V(v), e.BoolGV(is)}, true
	case name == "flag.Parse":
		for _, n := range sortedKeys(p.flags) {
			f := p.flags[n]
			e.Store(f.addr, f.typ, gsa.V(f.value), e.B.And(cond, f.given))
		}
		return nil, true
	case name == "flag.PrintDefaults" || name == "flag.Args" || name == "flag.NArg" || name == "flag.Arg":
		return nil, false
	case !strings.HasPrefix(name, "flag.") && !strings.HasPrefix(name, "(*flag."):
		return nil, false
	}
	k := strings.TrimSuffix(strings.TrimPrefix(name, "flag."), "Var")
	typ := map[string]types.Type{"String": strT, "Bool": types.Typ[types.Bool]}[k]
	if typ == nil || cond != gsa.True {
		p.vague = "a call of " + name
		return nil, false
	}
	var addr *Term
	if len(args) == 4 {
		addr = e.TermOf(args[0])
		args = args[1:]
	}
	n, ok := e.TermOf(args[0]).StrVal()
	if !ok {
		p.vague = "a flag without a fixed name"
		return nil, false
	}
	if p.flags[n] != nil {
		p.r.Viol("twice "+n, 0, "the generated %s registers the flag %s twice, which panics (service %s)", p.kind(), n, p.b.w.id)
		p.vague = n + " is registered twice"
		return nil, true
	}
	var res []GV
	if addr == nil {
		addr = e.Op("flagptr", n, types.NewPointer(typ))
		res = []GV{gsa.V(addr)}
	}
	f := &flagVar{addr: addr, typ: typ, def: args[1]}
	f.given = e.Atom(e.Op("given", "-"+n, types.Typ[types.Bool]))
	f.value = e.Op("flag", "-"+n, typ)
	p.flags[n] = f
	e.Store(addr, typ, args[1], cond)
	return res, true
}

func (p *program35) getenv(n string) *Term {
	return p.e.Call("os.Getenv", strT, p.e.Str(n))
}

// set says that an environment variable is set.
func (p *program35) set(n string) Node {
	return p.e.B.Not(p.e.EqNode(p.getenv(n), p.e.Str("")))
}

// source says what an address is made of: a flag (-name), a variable of the
// environment or a constant (""), with the text before and after it.
func (p *program35) source(t *Term) (src, pre, post string, ok bool) {
	parts := []*Term{t}
	if t.Op == "cat" {
		parts = t.Args
	}
	for _, x := range parts {
		s, is := x.StrVal()
		n := ""
		switch {
		case is && src == "":
			pre += s
			continue
		case is:
			post += s
			continue
		case x.Op == "flag":
			n = x.Aux
		case len(x.Args) == 1:
			if v, is := x.Args[0].StrVal(); is && x == p.getenv(v) {
				n = v
			}
		}
		if n == "" || src != "" {
			return "", "", "", false
		}
		src = n
	}
	return src, pre, post, true
}

// opaque says that an atom depends on more than flags and the environment.
func (p *program35) opaque(t *Term) bool {
	bad := false
	t.Walk(func(x *Term) bool {
		switch {
		case x.Op == "flag" || x.Op == "given" || x.Op == "const":
			return false
		case x.Op == "call" && (x.Aux == "os.Getenv" || x.Aux == "strings.ToLower"), x.Op == "cat", x.Op == "len", x.Op == "eq", x.Op == "envset", x == t:
			return true
		}
		bad = true
		return false
	})
	return bad
}

// judge decides where an address comes from and when it is used.
func (p *program35) judge(k string, s *setting, uses []*gsa.Effect) {
	e, r := p.e, p.r
	where := " (service " + p.b.w.id + ")"
	f := p.flags[s.flag]
	if f == nil {
		r.Viol("no flag "+s.flag, 0, "the generated %s has no flag %s%s", p.kind(), s.flag, where)
		return
	}
	def, hasDef := e.TermOf(f.def).StrVal()
	// when each source decides
	type decides struct {
		what, src, pre string
		when, nonempty Node
	}
	ds := []decides{{"the flag " + s.flag, "-" + s.flag, "", f.given, e.B.Not(e.EqNode(f.value, e.Str("")))}}
	rest := e.B.Not(f.given)
	if p.server {
		for _, v := range s.env {
			pre := ""
			if v == "PORT" {
				pre = ":"
			}
			ds = append(ds, decides{"the environment variable " + v, v, pre, e.B.And(rest, p.set(v)), gsa.True})
			rest = e.B.AndNot(rest, p.set(v))
		}
	}
	if hasDef {
		ds = append(ds, decides{"the default of " + s.flag, "", def, rest, node(def != "")})
	}
	used := gsa.False
	for _, u := range uses {
		used = e.B.Or(used, u.Cond)
	}
	for _, d := range ds {
		lost, vague := gsa.False, gsa.False
		for _, u := range uses {
			_, i := settingOf(e, u)
			for _, a := range u.Args[i] {
				c := e.B.And(u.Cond, a.C, d.when)
				src, pre, post, ok := p.source(a.T)
				if !p.server && k == "http" {
					pre = strings.TrimPrefix(pre, "http://")
				}
				switch {
				case !ok:
					vague = e.B.Or(vague, c)
				case src != d.src || pre != d.pre || post != "":
					lost = e.B.Or(lost, c)
				}
			}
		}
		if e.Sat(vague) {
			r.Unknown("whether %s decides %s of the generated %s%s", d.what, s.name, p.kind(), where)
			continue
		}
		opaque := p.opaque
		if !p.server {
			opaque = opaqueErr // that other clients worked
		}
		r.obligeX(e, lost, k+" not from "+d.what, nil, d.what+" decides "+s.name+" of the "+p.kind()+where, s.name+" of the generated "+p.kind()+" is not what "+d.what+" says"+where, opaque)
		if !p.server || k == "debug" {
			continue
		}
		r.obligeX(e, e.B.AndNot(e.B.And(d.when, d.nonempty), used), k+" not started for "+d.what, nil, "the server uses "+s.name+" that "+d.what+" gives"+where, "the generated server does not use "+s.name+" that "+d.what+" gives"+where, opaque)
		r.obligeX(e, e.B.AndNot(e.B.And(d.when, used), d.nonempty), k+" started in spite of "+d.what, nil, "the server does not use "+s.name+" when "+d.what+" is empty"+where, "the generated server uses "+s.name+" although "+d.what+" is empty"+where, opaque)
	}
}

func node(b bool) Node {
	if b {
		return gsa.True
	}
	return gsa.False
}

// debugging decides when the debug server is started.
func (p *program35) debugging(uses []*gsa.Effect) {
	e, r := p.e, p.r
	where := " (service " + p.b.w.id + ")"
	f := p.flags["debug"]
	if f == nil {
		r.Viol("no flag debug", 0, "the generated server has no flag debug%s", where)
		return
	}
	used := gsa.False
	for _, u := range uses {
		used = e.B.Or(used, u.Cond)
	}
	r.obligeX(e, e.B.And(f.given, e.B.Xor(used, e.Atom(f.value))), "debug flag", nil, "the flag debug, when given, decides whether the debug server is started"+where, "the generated server does not start its debug server exactly when the flag debug, which is given, says so"+where, p.opaque)
	none := e.B.AndNot(e.B.Not(f.given), p.set("DEBUG"))
	r.obligeX(e, e.B.And(none, e.B.Xor(used, e.NodeOf(f.def))), "debug default", nil, "without the flag and DEBUG the debug server is not started"+where, "without the flag debug and DEBUG the generated server does not follow the flag's default"+where, p.opaque)
	env := e.B.And(e.B.Not(f.given), p.set("DEBUG"))
	is := e.Find("call", "strings.ToLower", p.getenv("DEBUG"))
	if is == nil {
		depends := false
		for v := range e.B.Support(used) {
			depends = depends || strings.Contains(e.VarTerm(v).String(), "os.Getenv(\"DEBUG\")")
		}
		if depends {
			r.Unknown("what values of DEBUG start the debug server%s", where)
		} else {
			r.Viol("debug env", 0, "whether the generated server starts its debug server does not depend on DEBUG%s", where)
		}
		return
	}
	r.obligeX(e, e.B.And(env, e.B.Xor(used, e.EqNode(is, e.Str("true")))), "debug env", nil, "DEBUG=true starts the debug server unless the flag says otherwise"+where, "the generated server does not start its debug server exactly when DEBUG, which is set, is true"+where, p.opaque)
}
