package checks

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

// wiring follows requests through the generated server and clients of a world.
type wiring struct {
	c  *Ctx
	r  *Report
	b  *built
	w  *world
	sv *server
	// findings of this kind are reported
	wire, names bool
	n           int
}

// origin is where the server gets requests from: an HTTP route, a method of
// the gRPC service or a NATS subject.
type origin struct {
	kind      string // http, grpc, nats
	verb, key string // verb and path, full method, subject
	known     bool   // the texts above are constants
	at        *gsa.Effect
	source    *Term // the request, or message
	calls     []*gsa.Effect
	effects   []*gsa.Effect
	lost      string
}

func (o *origin) String() string {
	switch o.kind {
	case "http":
		return o.verb + " " + o.key
	case "grpc":
		return "the gRPC method " + o.key
	}
	return "the NATS subject " + o.key
}

// server is what the generated server does with the requests it gets.
type server struct {
	rv      *rootEval
	origins []*origin
	lost    string
}

// bare takes a value out of interfaces and conversions.
func bare(t *Term) *Term {
	for (t.Op == "mk" || t.Op == "conv") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// lostCall says whether an effect is a call of something not followed, which
// may do anything.
func (b *built) lostCall(ef *gsa.Effect) string {
	if ef.Kind != "call" && ef.Kind != "go" {
		return ""
	}
	if strings.HasPrefix(ef.Name, "dynamic") || strings.Contains(ef.Name, "zqtest/") && b.rpcOf(ef) == "" && !strings.Contains(ef.Name, "zqpb.zqRe") {
		return ef.Name
	}
	return ""
}

// rpcOf is the method of the service that a call calls.
func (b *built) rpcOf(ef *gsa.Effect) string {
	i := strings.LastIndexByte(ef.Name, '.')
	if ef.Kind != "call" || i < 0 || b.w.method(ef.Name[i+1:]) == nil {
		return ""
	}
	if strings.Contains(ef.Name, "zqsvcservice/service.") || strings.HasSuffix(ef.Name[:i], zqSvc+"Server)") {
		return ef.Name[i+1:]
	}
	return ""
}

// texts gives the constant texts of arguments.
func texts(e *gsa.Engine, args ...GV) ([]string, bool) {
	var out []string
	for _, a := range args {
		s, ok := e.TermOf(a).StrVal()
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// server evaluates server.Run.
func (b *built) server() *server {
	if b.sv != nil {
		return b.sv
	}
	s := &server{}
	b.sv = s
	s.rv = b.composed(zqSvcPath+"/server", "Run")
	if s.rv == nil {
		s.lost = "server.Run not found"
		return s
	}
	e := s.rv.e
	var cur *origin
	open := func(ef *gsa.Effect, kind string, known bool, verb, key string) {
		cur = &origin{kind: kind, verb: verb, key: key, known: known, at: ef, source: ef.Res}
		s.origins = append(s.origins, cur)
	}
	for _, ef := range e.Effects {
		switch {
		case strings.HasSuffix(ef.Name, "gorilla/mux.matched") && len(ef.Args) == 4:
			ts, ok := texts(e, ef.Args[2], ef.Args[3])
			route := e.TermOf(ef.Args[1])
			for i := 0; i < len(s.origins); i++ {
				// what a route matched before it was said in full
				if o := s.origins[i]; o.kind == "http" && e.TermOf(o.at.Args[1]) == route {
					s.origins = append(s.origins[:i], s.origins[i+1:]...)
					i--
				}
			}
			if ok {
				open(ef, "http", true, ts[0], ts[1])
			} else {
				open(ef, "http", false, "", "")
			}
			continue
		case strings.HasSuffix(ef.Name, "zqpb.zqReceived") && len(ef.Args) == 3:
			ts, ok := texts(e, ef.Args[1])
			if ok {
				open(ef, "grpc", true, "", ts[0])
			} else {
				open(ef, "grpc", false, "", "")
			}
			continue
		case strings.HasSuffix(ef.Name, "nats.go.received") && len(ef.Args) == 2:
			ts, ok := texts(e, ef.Args[1])
			if ok {
				open(ef, "nats", true, "", ts[0])
			} else {
				open(ef, "nats", false, "", "")
			}
			continue
		}
		o := cur
		if b.rpcOf(ef) != "" && len(ef.Args) == 3 {
			// its context tells where the request is from
			e.TermOf(ef.Args[1]).Walk(func(t *Term) bool {
				for _, x := range s.origins {
					if t == x.source {
						o = x
					}
				}
				return true
			})
			if o != nil {
				o.calls = append(o.calls, ef)
			} else {
				s.lost = "a call of the service that no request causes"
			}
			continue
		}
		if why := b.lostCall(ef); why != "" {
			if o != nil {
				o.lost = why
			}
			s.lost = "what " + why + " does"
		}
		if o != nil {
			o.effects = append(o.effects, ef)
		}
	}
	for _, l := range e.LoopTab {
		_ = l
	}
	return s
}

// given is the situation in which only one transport is served.
func (s *server) given(field string) Node {
	e := s.rv.e
	n := gsa.True
	for _, t := range e.Vars() {
		var at string
		lit := e.Atom(t)
		if t.Op == "eq" {
			for i, a := range t.Args {
				if f, ok := configField(a); ok && t.Args[1-i].StrValEmpty() {
					at = f
				}
			}
		} else if f, ok := configField(t); ok {
			at = f
		}
		switch {
		case at == field:
			n = e.B.And(n, e.B.Not(lit))
		case at == "Debug":
			n = e.B.And(n, e.B.Not(lit))
		case strings.HasSuffix(at, "Addr"):
			n = e.B.And(n, lit)
		}
	}
	return n
}

// configField recognises a field of the configuration of the server.
func configField(t *Term) (string, bool) {
	switch t.Op {
	case "load":
		if a := t.Args[0]; a.Op == "fa" && strings.HasPrefix(termType(a.Args[0]), "server.Config") {
			return a.Aux, true
		}
	case "field":
		if strings.HasPrefix(termType(t.Args[0]), "server.Config") {
			return t.Aux, true
		}
	}
	return "", false
}

func termType(t *Term) string {
	if t.Typ == nil {
		return ""
	}
	s := strings.TrimLeft(t.Typ.String(), "*")
	return s[strings.LastIndexByte(s, '/')+1:]
}

// runs decides whether something happens whenever the transport is served and
// nothing fails.
func (s *server) runs(cond Node, given Node) (verdict, string) {
	e := s.rv.e
	if !e.Sat(e.B.And(cond, given)) {
		return broken, ""
	}
	return s.always(e, cond, given)
}

func (s *server) always(e *gsa.Engine, cond, given Node) (verdict, string) {
	bad := e.B.And(given, e.B.Not(cond))
	for v := range e.B.Support(bad) {
		if t := e.VarTerm(v); errAtom(t) {
			bad = e.B.Restrict(bad, v, true)
		}
	}
	return decide(e, bad, opaqueTerm)
}

var addrOf = map[string]string{"http": "HTTPAddr", "grpc": "GRPCAddr", "nats": "NATSAddr"}

func (w *wiring) viol(wire bool, key, format string, a ...any) {
	if wire && !w.wire || !wire && !w.names {
		return
	}
	w.r.Viol(key, 0, "%s (service %s)", fmt.Sprintf(format, a...), w.w.id)
}

func (w *wiring) unknown(format string, a ...any) {
	w.r.Unknown("%s (service %s)", fmt.Sprintf(format, a...), w.w.id)
}

func (w *wiring) ok(format string, a ...any) {
	w.n++
	w.r.Ok("%s", fmt.Sprintf(format, a...))
}

// transport says whether a transport is selected.
func (w *world) has(kind string) bool {
	return kind == "http" || w.transport == "all" || w.transport == kind
}

// served judges the requests of one origin: the method called is m, with what
// the request says, and its response is the answer.
func (w *wiring) served(o *origin, m *wmethod) {
	s, e := w.sv, w.sv.rv.e
	given := s.given(addrOf[o.kind])
	kind := o.kind
	var mine *gsa.Effect
	for _, ef := range o.calls {
		if !e.Sat(e.B.And(ef.Cond, given)) {
			continue
		}
		n := w.b.rpcOf(ef)
		if n != m.name {
			w.viol(true, kind+":handler", "a request to %s of RPC %s is handled by %s", o, m.name, n)
			return
		}
		mine = ef
	}
	if v, why := s.runs(o.at.Cond, given); v == broken {
		w.viol(true, kind+":served", "%s of RPC %s is not served although %s is set: %s", o, m.name, addrOf[kind], short(why, 200))
		return
	} else if v == undecided {
		w.unknown("when %s is served", o)
		return
	}
	if mine == nil {
		if o.lost != "" {
			w.unknown("what happens to a request to %s: %s", o, o.lost)
			return
		}
		w.viol(true, kind+":nohandler", "a request to %s of RPC %s never reaches %s: %s", o, m.name, m.name, w.stopped(o, given))
		return
	}
	// the request
	req := bare(e.TermOf(mine.Args[2]))
	switch kind {
	case "grpc":
		if in := bare(e.TermOf(o.at.Args[2])); req != in {
			if req.Op == "alloc" || req.IsNil() {
				w.viol(true, "grpc:request", "%s is called with another request than the one received: %s", m.name, short(req.String(), 100))
				return
			}
			w.unknown("what request %s is called with: %s", m.name, short(req.String(), 100))
			return
		}
	default:
		if req.IsNil() {
			w.viol(true, kind+":request", "%s is called without a request", m.name)
			return
		}
		filled := false
		for _, ef := range o.effects {
			if ef.Kind != "call" {
				continue
			}
			from, to := false, false
			for _, a := range ef.Args {
				t := e.TermOf(a)
				if bare(t) == req {
					to = true
				} else if o.source != nil && t.Contains(o.source) {
					from = true
				}
			}
			filled = filled || from && to
		}
		if kind == "nats" && !filled {
			w.unknown("where the request of %s comes from", m.name)
			return
		}
	}
	// the answer
	var res *Term = mine.Res
	said, right := 0, 0
	wrong := ""
	for _, ef := range o.effects {
		var ans GV
		switch {
		case kind != "grpc" && strings.HasSuffix(ef.Name, ".served") && len(ef.Args) == 2:
			ans = ef.Args[1]
		case strings.HasSuffix(ef.Name, "zqpb.zqReplied") && len(ef.Args) == 4:
			ans = ef.Args[2]
		default:
			continue
		}
		if !e.Sat(e.B.And(ef.Cond, given)) {
			continue
		}
		for _, a := range ans {
			if !e.Sat(e.B.And(e.B.And(a.C, ef.Cond), given)) {
				continue
			}
			t := bare(a.T)
			if t.IsNil() {
				continue
			}
			said++
			if res != nil && t.Contains(res) {
				right++
			} else {
				wrong = short(t.String(), 100)
			}
		}
	}
	switch {
	case said == 0 && o.lost == "":
		w.viol(true, kind+":answer", "a request to %s is never answered with what %s returns: %s", o, m.name, w.stopped(o, given))
	case said == 0:
		w.unknown("how a request to %s is answered: %s", o, o.lost)
	case right < said:
		w.viol(true, kind+":answer", "a request to %s of RPC %s is answered with %s", o, m.name, wrong)
	default:
		w.ok("%s is handled by %s, with the request received, and answered with its response", o, m.name)
	}
}

// stopped tells what ends the handling of a request.
func (w *wiring) stopped(o *origin, given Node) string {
	e := w.sv.rv.e
	for _, ef := range o.effects {
		if !e.Sat(e.B.And(ef.Cond, given)) {
			continue
		}
		switch ef.Kind {
		case "assert":
			return fmt.Sprintf("%s is taken for a %s", short(e.GVString(ef.Args[0]), 80), ef.Name)
		case "panic":
			return "panic: " + ef.Name
		}
	}
	return "nothing calls it"
}

// judgeServer decides what the server does with requests.
func (w *wiring) judgeServer() {
	s := w.sv
	e := s.rv.e
	find := func(kind string, f func(*origin) bool) (out []*origin, unknown bool) {
		for _, o := range s.origins {
			if o.kind != kind {
				continue
			}
			if !o.known {
				unknown = true
			} else if f(o) {
				out = append(out, o)
			}
		}
		return
	}
	for _, m := range w.w.methods {
		m := m
		for _, b := range m.bindings {
			b := b
			os, unk := find("http", func(o *origin) bool { return o.verb == strings.ToUpper(b.verb) && o.key == b.path })
			switch {
			case len(os) > 0:
				w.served(os[0], m)
			case unk || s.lost != "":
				w.unknown("whether rule %d of %s is routed: %s", 1, m.name, s.lost)
			default:
				w.viol(true, "http:route", "the server has no route %s %s for RPC %s", strings.ToUpper(b.verb), b.path, m.name)
			}
		}
		if w.w.has("grpc") {
			os, unk := find("grpc", func(o *origin) bool { return strings.HasSuffix(o.key, "/"+m.name) })
			switch {
			case len(os) > 0:
				w.served(os[0], m)
			case unk || s.lost != "":
				w.unknown("whether %s is served by gRPC: %s", m.name, s.lost)
			default:
				w.viol(true, "grpc:register", "the gRPC server does not serve RPC %s", m.name)
			}
		}
		if w.w.has("nats") {
			os, unk := find("nats", func(o *origin) bool {
				for _, ef := range o.calls {
					if w.b.rpcOf(ef) == m.name {
						return true
					}
				}
				return false
			})
			switch {
			case len(os) == 1:
				w.served(os[0], m)
			case len(os) > 1:
				w.viol(true, "nats:subjects", "RPC %s handles the requests to %s and to %s", m.name, os[0], os[1])
			case unk || s.lost != "":
				w.unknown("whether %s is served by NATS: %s", m.name, s.lost)
			default:
				why := ""
				for _, o := range s.origins {
					if o.kind == "nats" && len(o.calls) == 0 {
						why = fmt.Sprintf("; a request to %s reaches no RPC: %s", o, w.stopped(o, s.given("NATSAddr")))
					}
				}
				w.viol(true, "nats:subscribe", "no NATS subject reaches RPC %s%s", m.name, why)
			}
		}
	}
	// two subscriptions of one subject
	seen := map[string]string{}
	for _, o := range s.origins {
		if o.kind != "nats" || !o.known || len(o.calls) == 0 {
			continue
		}
		n := w.b.rpcOf(o.calls[0])
		if was, ok := seen[o.key]; ok && was != n {
			w.viol(true, "nats:subject", "the RPCs %s and %s are both subscribed to %s", was, n, o.key)
		}
		seen[o.key] = n
	}
	w.listens("http", "net/http.ListenAndServe", func(ef *gsa.Effect) (addr, what GV) { return ef.Args[0], ef.Args[1] }, 2,
		func(o *origin) *Term { return e.TermOf(o.at.Args[0]) })
	w.listens("grpc", "google.golang.org/grpc.Server).Serve", func(ef *gsa.Effect) (addr, what GV) { return ef.Args[1], ef.Args[0] }, 2,
		func(o *origin) *Term { return bare(e.TermOf(o.at.Args[0])) })
	// NATS: the connection
	for _, o := range s.origins {
		if o.kind != "nats" {
			continue
		}
		w.address("nats", e.TermOf(o.at.Args[0]), o)
	}
}

// listens checks that what has the routes is served at its address.
func (w *wiring) listens(kind, fn string, parts func(*gsa.Effect) (addr, what GV), n int, of func(*origin) *Term) {
	s, e := w.sv, w.sv.rv.e
	var first *origin
	for _, o := range s.origins {
		if o.kind == kind {
			first = o
			break
		}
	}
	if first == nil {
		return
	}
	given := s.given(addrOf[kind])
	whole := of(first)
	found, others := false, false
	for _, ef := range e.Effects {
		if ef.Kind != "call" || !e.Sat(e.B.And(ef.Cond, given)) {
			continue
		}
		if !strings.HasSuffix(ef.Name, fn) || len(ef.Args) != n {
			// another way to serve
			name := ef.Name[strings.LastIndexByte(ef.Name, '.')+1:]
			if strings.HasPrefix(name, "Serve") && name != "ServeHTTP" || strings.HasPrefix(name, "ListenAndServe") {
				others = true
			}
			continue
		}
		addr, what := parts(ef)
		t := e.TermOf(what)
		if !t.Contains(whole) {
			others = true
			continue
		}
		found = true
		if v, why := s.runs(ef.Cond, given); v == broken {
			w.viol(true, kind+":listen", "the generated server does not serve %s although %s is set: %s", kind, addrOf[kind], short(why, 200))
		}
		w.address(kind, e.TermOf(addr), first)
	}
	if found {
		return
	}
	if s.lost != "" || others {
		w.unknown("whether what serves %s is started: %s", kind, s.lost)
		return
	}
	w.viol(true, kind+":listen", "the generated server never serves %s", kind)
}

// address checks the configured address something is served at.
func (w *wiring) address(kind string, t *Term, o *origin) {
	var fields []string
	t.Walk(func(x *Term) bool {
		if f, ok := configField(x); ok {
			fields = append(fields, f)
		}
		return true
	})
	if len(fields) == 1 && fields[0] == addrOf[kind] {
		w.ok("%s is served at the configured %s", kind, fields[0])
		return
	}
	if len(fields) > 0 {
		w.viol(true, kind+":address", "%s is served at the configured %s", kind, strings.Join(fields, ", "))
		return
	}
	at := t
	for _, f := range []string{"nats.go.Connect", "net.Listen"} {
		t.Walk(func(x *Term) bool {
			if a, ok := callOf(x, f); ok && len(a) > 0 {
				at = a[0]
				if f == "net.Listen" {
					at = a[len(a)-1]
				}
			}
			return true
		})
	}
	if v, ok := at.StrVal(); ok {
		w.viol(true, kind+":address", "%s is served at the fixed address %q, not at the configured one", kind, v)
		return
	}
	w.unknown("at what address %s is served: %s", kind, short(t.String(), 100))
}

// client is a call of an RPC through a generated client.
type client struct {
	w    *wiring
	kind string
	m    *wmethod
	rv   *rootEval
	in   *Term // the request
	send *gsa.Effect
	lost string
	// an enum of the request whose name is in the path
	named string
}

var sendsOf = map[string]string{
	"http": "transport/http.sent",
	"grpc": "(*google.golang.org/grpc.ClientConn).Invoke",
	"nats": "(*github.com/nats-io/nats.go.Conn).Request",
}

// client evaluates the call of a method through a client.
func (w *wiring) client(kind string, m *wmethod) *client {
	cl := &client{w: w, kind: kind, m: m}
	name := clientName(strings.ToUpper(kind), m.name)
	cl.rv = w.b.clientEval(name)
	if cl.rv == nil {
		if w.b.noClient != "" {
			w.unknown("%s", w.b.noClient)
		} else {
			w.viol(true, kind+":client", "there is no %s client", kind)
		}
		return nil
	}
	e := cl.rv.e
	fn := w.b.program().Func(zqHarness, name)
	cl.in = e.Param(fn, fn.Params[2])
	n := 0
	for _, ef := range e.Effects {
		if why := w.b.lostCall(ef); why != "" {
			cl.lost = why
		}
		if ef.Kind == "call" && strings.HasSuffix(ef.Name, sendsOf[kind]) && e.Sat(ef.Cond) {
			n++
			cl.send = ef
		}
	}
	switch {
	case n == 0 && cl.lost != "":
		w.unknown("what the %s client of %s sends: %s", kind, m.name, cl.lost)
		return nil
	case n == 0:
		w.viol(true, kind+":client", "the generated %s client never sends a request for RPC %s: %s", kind, m.name, cl.stopped())
		return nil
	case n > 1:
		w.unknown("the %s client of %s sends %d requests", kind, m.name, n)
		return nil
	}
	if v, why := w.sv.always(e, cl.send.Cond, gsa.True); v == broken && !strings.Contains(why, "HTTP_") {
		w.viol(true, kind+":client", "the generated %s client sends no request for RPC %s when %s", kind, m.name, short(why, 200))
	}
	return cl
}

func (b *built) clientEval(name string) *rootEval {
	if b.clients == nil {
		b.clients = map[string]*rootEval{}
	}
	if rv, ok := b.clients[name]; ok {
		return rv
	}
	if b.program().Func(zqHarness, name) == nil {
		b.clients[name] = nil
		return nil
	}
	rv := b.composed(zqHarness, name)
	b.clients[name] = rv
	return rv
}

// stopped tells what ends a call.
func (cl *client) stopped() string {
	e := cl.rv.e
	for _, ef := range e.Effects {
		if !e.Sat(ef.Cond) {
			continue
		}
		switch ef.Kind {
		case "assert":
			return fmt.Sprintf("%s is taken for a %s", short(e.GVString(ef.Args[0]), 80), ef.Name)
		case "panic":
			return "panic: " + ef.Name
		}
	}
	return "nothing sends it"
}

// mentions says whether a term says something about the request, in the data
// it sends.
func (cl *client) carries(t *Term) bool {
	if t.Contains(cl.in) {
		return true
	}
	// through the body of an HTTP request
	return false
}

// judge decides what the client sends and returns.
func (cl *client) judge() {
	w, e := cl.w, cl.rv.e
	kind, m := cl.kind, cl.m
	var data GV
	switch kind {
	case "grpc":
		data = cl.send.Args[3]
	case "nats":
		data = cl.send.Args[2]
	}
	if data != nil {
		for _, a := range data {
			if e.Sat(e.B.And(a.C, cl.send.Cond)) && !a.T.Contains(cl.in) {
				if opaqueTerm(a.T) || cl.lost != "" {
					w.unknown("what the %s client of %s sends: %s", kind, m.name, short(a.T.String(), 100))
				} else {
					w.viol(true, kind+":clientrequest", "the generated %s client sends %s as the request of %s", kind, short(a.T.String(), 100), m.name)
				}
				return
			}
		}
	}
	// the answer
	for _, ef := range e.Effects {
		if ef.Kind != "assert" || !e.Sat(ef.Cond) || len(ef.Args) == 0 {
			continue
		}
		t := e.TermOf(ef.Args[0])
		have := ""
		if a, ok := callOf(t, "transport/grpc.newOf"); ok && len(a) == 1 && a[0].Op == "mk" {
			have = "*" + strings.TrimPrefix(a[0].Aux, "*")
		} else if t.Op == "mk" {
			have = t.Aux
		}
		if have != "" && have != ef.Name {
			w.viol(true, kind+":clienttype", "the generated %s client of %s takes a %s for a %s", kind, m.name, have, ef.Name)
			return
		}
	}
	if len(cl.rv.res) != 2 {
		w.unknown("what the %s client of %s returns", kind, m.name)
		return
	}
	n := 0
	for _, a := range e.Under(cl.rv.res[0], cl.rv.ok) {
		if !e.Sat(e.B.And(a.C, cl.rv.ok)) {
			continue
		}
		n++
		if a.T.IsNil() {
			w.viol(true, kind+":clientanswer", "the generated %s client of %s returns no response", kind, m.name)
			return
		}
		t := bare(a.T)
		if t.Op == "as" {
			t = bare(t.Args[0])
		}
		ok := false
		switch kind {
		case "grpc":
			ok = t == bare(e.TermOf(cl.send.Args[4]))
		default:
			for _, ef := range e.Effects {
				if ef.Kind != "call" || ef.Seq < cl.send.Seq {
					continue
				}
				from, to := false, false
				for _, x := range ef.Args {
					xt := e.TermOf(x)
					if bare(xt) == t {
						to = true
					} else if cl.send.Res != nil && xt.Contains(cl.send.Res) {
						from = true
					}
				}
				ok = ok || from && to
			}
		}
		if !ok {
			if cl.lost != "" || opaqueTerm(t) {
				w.unknown("what the %s client of %s returns: %s", kind, m.name, short(t.String(), 100))
			} else {
				w.viol(true, kind+":clientanswer", "the generated %s client of %s does not return the response it got but %s", kind, m.name, short(t.String(), 100))
			}
			return
		}
	}
	if n == 0 {
		if cl.lost != "" {
			w.unknown("what the %s client of %s returns: %s", kind, m.name, cl.lost)
		} else {
			w.viol(true, kind+":clientanswer", "the generated %s client of %s never returns a response: %s", kind, m.name, cl.stopped())
		}
		return
	}
	w.ok("the %s client of %s sends its request and returns the response", kind, m.name)
}

// address decides whom the client addresses.
func (cl *client) address() {
	w, e, m := cl.w, cl.rv.e, cl.m
	switch cl.kind {
	case "grpc", "nats":
		i := map[string]int{"grpc": 2, "nats": 1}[cl.kind]
		ts, ok := texts(e, cl.send.Args[i])
		if !ok {
			w.unknown("what the %s client of %s addresses: %s", cl.kind, m.name, short(e.GVString(cl.send.Args[i]), 100))
			return
		}
		got := ts[0]
		if cl.kind == "grpc" {
			want := "/" + zqProtoPkg + "." + zqSvc + "/" + m.name
			switch {
			case got == want, got == "/"+zqPkg+"."+zqSvc+"/"+m.name:
				if got != want {
					w.viol(false, "grpc.service:package", "the gRPC client calls the service %q of Go package %s, the server has it under the package of the definition", got, zqPkg)
				}
				w.ok("the gRPC client of %s calls its method", m.name)
			default:
				w.viol(false, "grpc:method", "the gRPC client of %s calls %s, the server has %s", m.name, got, want)
				for _, o := range w.w.methods {
					if o != m && strings.HasSuffix(got, "/"+o.name) {
						w.viol(true, "grpc:clientmethod", "the gRPC client of %s calls %s", m.name, got)
					}
				}
			}
			return
		}
		unk := w.sv.lost != ""
		for _, o := range w.sv.origins {
			if o.kind != "nats" {
				continue
			}
			if !o.known {
				unk = true
				continue
			}
			if o.key != got {
				continue
			}
			for _, ef := range o.calls {
				if n := w.b.rpcOf(ef); n != m.name {
					w.viol(true, "nats:clientsubject", "the NATS client of %s sends to %s, which is handled by %s", m.name, got, n)
					w.viol(false, "nats:subject", "the NATS client of %s sends to %s, the subject of %s", m.name, got, n)
					return
				}
			}
			w.ok("the NATS client of %s sends to the subject %s of its server", m.name, got)
			return
		}
		if unk {
			w.unknown("the subjects of the NATS server: %s", w.sv.lost)
			return
		}
		w.viol(false, "nats:subject", "the NATS client of %s sends to %s, which the server does not subscribe to", m.name, got)
	case "http":
		cl.httpAddress()
	}
}

// pathPart is a piece of a path: a text, or a value of the request.
type pathPart struct {
	text string
	val  *Term
}

// pathOf takes the path of an HTTP request apart, for each of its values.
func pathOf(t *Term) [][][]pathPart {
	var out [][][]pathPart
	for _, parts := range pathParts(t) {
		segs := [][]pathPart{nil}
		for _, p := range parts {
			s, ok := p.StrVal()
			if !ok {
				segs[len(segs)-1] = append(segs[len(segs)-1], pathPart{val: p})
				continue
			}
			for i, x := range strings.Split(s, "/") {
				if i > 0 {
					segs = append(segs, nil)
				}
				if x != "" {
					segs[len(segs)-1] = append(segs[len(segs)-1], pathPart{text: x})
				}
			}
		}
		out = append(out, segs)
	}
	return out
}

// pathParts lists the pieces of a path, for each of its values.
func pathParts(t *Term) [][]*Term {
	if t.Op == "load" && t.Args[0].Op == "fa" && t.Args[0].Aux == "Path" {
		t = t.Args[0].Args[0]
	} else if t.Op == "field" && t.Aux == "Path" {
		t = t.Args[0]
	}
	if a, ok := callOf(t, "net/url.Parse"); ok && len(a) == 1 {
		t = a[0]
	}
	switch t.Op {
	case "box":
		if gv, ok := t.X.(GV); ok {
			var out [][]*Term
			for _, a := range gv {
				out = append(out, pathParts(a.T)...)
			}
			return out
		}
	case "cat":
		out := [][]*Term{nil}
		for _, x := range t.Args {
			var next [][]*Term
			tails := [][]*Term{{x}}
			if x.Op != "box" {
				tails = pathParts(x)
			}
			for _, tail := range tails {
				for _, head := range out {
					next = append(next, append(append([]*Term{}, head...), tail...))
				}
			}
			out = next
			if len(out) > 32 {
				return [][]*Term{{t}}
			}
		}
		return out
	}
	return [][]*Term{{t}}
}

// unclear reports whether a path has pieces whose text is not known, other
// than the value of a field.
func (cl *client) unclear(alts [][][]pathPart) bool {
	for _, segs := range alts {
		for _, s := range segs {
			for _, p := range s {
				if p.val == nil {
					continue
				}
				if len(cl.fieldsOf(p.val)) > 1 {
					return true
				}
				v := p.val
				for {
					if a, ok := callOf(v, "fmt.Sprint"); ok && len(a) > 0 {
						v = bare(a[len(a)-1])
						continue
					}
					if a, ok := callOf(v, "fmt.Sprintf"); ok && len(a) > 0 {
						v = bare(a[len(a)-1])
						continue
					}
					break
				}
				if a, ok := callOf(v, "net/url.PathEscape"); ok {
					v = bare(a[0])
				}
				if v.Op == "call" && !strings.HasPrefix(v.CallName(), "strconv.") || opaqueTerm(v) {
					return true
				}
			}
		}
	}
	return false
}

// fieldsOf lists the fields of the request that a term depends on.
func (cl *client) fieldsOf(t *Term) []string {
	set := map[string]bool{}
	t.Walk(func(x *Term) bool {
		if x.Op == "fa" && x.Args[0] == cl.in {
			set[x.Aux] = true
		}
		return true
	})
	return sortedKeys(set)
}

func (cl *client) fieldsOfGV(g GV) []string {
	set := map[string]bool{}
	for _, a := range g {
		for _, f := range cl.fieldsOf(a.T) {
			set[f] = true
		}
	}
	return sortedKeys(set)
}

// matches compares the values of a path with the path of a rule; it returns a
// reason when they differ, and whether they certainly do.
func (cl *client) matches(alts [][][]pathPart, b *wbinding) (string, bool) {
	want := strings.Split(b.path, "/")
	vars := map[string]string{}
	for _, f := range b.params {
		vars["{"+f.proto+"}"] = f.field
	}
	seen := map[string]bool{}
	for _, segs := range alts {
		if len(want) != len(segs) {
			return fmt.Sprintf("%d elements in place of %d", len(segs), len(want)), true
		}
		for i, s := range segs {
			f, isVar := vars[want[i]]
			switch {
			case !isVar:
				text := ""
				for _, p := range s {
					if p.val != nil {
						return fmt.Sprintf("element %d is not %q", i, want[i]), true
					}
					text += p.text
				}
				if text != want[i] {
					return fmt.Sprintf("element %d is %q, not %q", i, text, want[i]), true
				}
			case len(alts) > 1 && (len(s) == 0 || len(s) == 1 && (s[0].text == "0" || s[0].text == "false")):
				// what stands for a value that is not set
			case len(s) != 1 || s[0].val == nil:
				return fmt.Sprintf("element %d is not the value of %s", i, f), true
			default:
				got := cl.fieldsOf(s[0].val)
				if len(got) == 0 {
					// what stands for a value that is not set
					if len(alts) > 1 && zeroText(s[0].val) {
						continue
					}
					return "what element of the path " + want[i] + " is: " + short(s[0].val.String(), 80), false
				}
				if len(got) != 1 || got[0] != f {
					return fmt.Sprintf("element %d, the value of %s, is made of %s", i, f, strings.Join(got, ", ")), true
				}
				seen[f] = true
				for _, x := range b.params {
					if x.field == f && enumName(s[0].val) && x.enum {
						cl.named = f
					}
				}
			}
		}
	}
	for i, p := range want {
		if f, ok := vars[p]; ok && !seen[f] {
			return fmt.Sprintf("element %d does not depend on %s", i, f), false
		}
	}
	return "", true
}

// enumName says whether a text is the name of an enum value: how fmt writes a
// value with a method String.
func enumName(t *Term) bool {
	t = bare(t)
	for _, n := range []string{"fmt.Sprint", "fmt.Sprintf"} {
		a, ok := callOf(t, n)
		if !ok {
			continue
		}
		if n == "fmt.Sprintf" {
			if f, ok := a[0].StrVal(); !ok || f != "%v" && f != "%s" && f != "%q" {
				return false
			}
			a = a[1:]
		}
		if len(a) != 1 {
			return false
		}
		x := a[0]
		for x.Op == "mk" && len(x.Args) == 1 {
			x = x.Args[0]
		}
		if x.Op == "call" || x.Op == "conv" || x.Typ == nil {
			return false
		}
		return typeHasMethod(x.Typ, "String")
	}
	return t.Op == "call" && strings.HasSuffix(t.CallName(), ".String") && len(t.Args) == 1
}

// zeroText: the text of the zero value of a type.
func zeroText(t *Term) bool {
	for _, f := range []string{"fmt.Sprint", "fmt.Sprintf"} {
		if a, ok := callOf(t, f); ok && len(a) > 0 {
			t = a[len(a)-1]
		}
	}
	t = bare(t)
	if t.IsNil() || t.Op == "zero" {
		return true
	}
	switch t.String() {
	case "0", `""`, "false":
		return true
	}
	return false
}

// httpAddress decides verb, path and query of an HTTP request.
func (cl *client) httpAddress() {
	w, e, m := cl.w, cl.rv.e, cl.m
	send := cl.send
	verb, ok := e.TermOf(send.Args[0]).StrVal()
	if !ok {
		w.unknown("the verb the HTTP client of %s uses", m.name)
		return
	}
	var mine *wbinding
	for _, a := range send.Args[2] {
		if !e.Sat(e.B.And(a.C, send.Cond)) {
			continue
		}
		segs := pathOf(a.T)
		var why string
		sure := true
		var hit *wbinding
		for _, b := range m.bindings {
			x, definite := cl.matches(segs, b)
			if x == "" && strings.ToUpper(b.verb) == verb {
				hit = b
				break
			}
			if x == "" {
				x = fmt.Sprintf("verb %s in place of %s", verb, strings.ToUpper(b.verb))
			}
			sure = sure && definite
			if why == "" {
				why = x
			}
		}
		if hit == nil {
			for _, o := range w.w.methods {
				for _, b := range o.bindings {
					if x, _ := cl.matches(segs, b); o != m && x == "" && strings.ToUpper(b.verb) == verb {
						w.viol(true, "http:clientpath", "the HTTP client of %s sends its request to %s %s of %s", m.name, verb, b.path, o.name)
					}
				}
			}
			if !sure || cl.unclear(segs) {
				w.unknown("the path the HTTP client of %s uses: %s: %s", m.name, why, short(a.T.String(), 200))
				return
			}
			w.viol(false, "http:path", "the HTTP client of %s sends %s %s, which the server has no route for: %s", m.name, verb, short(pathText(segs[0]), 150), why)
			return
		}
		if mine != nil && mine != hit {
			w.unknown("the HTTP client of %s uses several rules", m.name)
			return
		}
		mine = hit
	}
	if mine == nil {
		w.unknown("the path the HTTP client of %s uses", m.name)
		return
	}
	if cl.named != "" && w.names {
		w.viol(false, "http:enumname", "the HTTP client of %s puts the name of the value of %s, an enum, in the path, the server reads its number", m.name, cl.named)
	}
	w.ok("the HTTP client of %s uses %s %s", m.name, verb, mine.path)
	if w.names {
		cl.query(mine)
	}
}

func pathText(segs [][]pathPart) string {
	var out []string
	for _, s := range segs {
		x := ""
		for _, p := range s {
			if p.val != nil {
				x += "‹" + p.val.String() + "›"
			} else {
				x += p.text
			}
		}
		out = append(out, x)
	}
	return strings.Join(out, "/")
}

// sentParam is a query parameter that a client sends.
type sentParam struct {
	name   string
	fields []string
	val    GV
	ef     *gsa.Effect
}

// sent lists the query parameters of a request.
func (cl *client) sent() ([]sentParam, string) {
	e := cl.rv.e
	q := e.TermOf(cl.send.Args[3])
	if q.StrValEmpty() {
		return nil, ""
	}
	if (q.Op == "field" || q.Op == "load" && q.Args[0].Op == "fa") && strings.HasSuffix(q.String(), ".RawQuery") && !q.Contains(cl.in) {
		return nil, "" // that of the address of the server
	}
	a, ok := callOf(q, "net/url.Values).Encode")
	if !ok || len(a) != 1 {
		return nil, "the query is " + short(q.String(), 100)
	}
	vals := bare(a[0])
	var out []sentParam
	for _, ef := range e.Effects {
		var k, v GV
		switch {
		case len(ef.Args) == 0 || bare(e.TermOf(ef.Args[0])) != vals:
			continue
		case ef.Kind == "mapupdate" && len(ef.Args) == 3,
			ef.Kind == "call" && len(ef.Args) == 3 && (strings.HasSuffix(ef.Name, "net/url.Values).Add") || strings.HasSuffix(ef.Name, "net/url.Values).Set")):
			k, v = ef.Args[1], ef.Args[2]
		case ef.Kind == "call" && strings.HasSuffix(ef.Name, "net/url.Values).Encode"):
			continue
		default:
			return nil, fmt.Sprintf("what %s does with the query", ef.Name)
		}
		if !e.Sat(ef.Cond) {
			continue
		}
		n, ok := e.TermOf(k).StrVal()
		if !ok {
			return nil, "the name of a query parameter is " + short(e.GVString(k), 80)
		}
		out = append(out, sentParam{n, cl.fieldsOfGV(v), v, ef})
	}
	return out, ""
}

// keysRead tells which parameters the server puts in the fields of a request.
func (w *wiring) keysRead(o *origin) (map[string]map[string]string, string) {
	e := w.sv.rv.e
	if len(o.calls) == 0 {
		return nil, "the request is not known"
	}
	req := bare(e.TermOf(o.calls[0].Args[2]))
	out := map[string]map[string]string{}
	var keys func(t *Term, into map[string]string, depth int)
	keys = func(t *Term, into map[string]string, depth int) {
		t.Walk(func(x *Term) bool {
			if x.Op == "lookup" && len(x.Args) == 2 {
				if k, ok := x.Args[1].StrVal(); ok {
					if loc, ok := params(x.Args[0]); ok {
						into[k] = loc
					}
				}
			}
			if a, ok := callOf(x, "net/url.Values).Get"); ok && len(a) == 2 {
				if k, ok := a[1].StrVal(); ok {
					into[k] = "query"
				}
			}
			if depth < 3 && (x.Op == "alloc" || x.Op == "mkslice") && x != req {
				for _, ef := range o.effects {
					from := -1
					switch {
					case ef.Kind == "lstore" && len(ef.Args) == 2:
						if r := ef.Args[0].One(); r != nil && addressRoot(r) == x {
							from = 1
						}
					case ef.Kind == "call" && strings.HasSuffix(ef.Name, "encoding/json.Unmarshal") && len(ef.Args) == 2:
						if bare(e.TermOf(ef.Args[1])) == x {
							from = 0
						}
					}
					if from >= 0 {
						for _, a := range ef.Args[from] {
							keys(a.T, into, depth+1)
						}
					}
				}
			}
			return true
		})
	}
	for _, ef := range o.effects {
		if ef.Kind != "lstore" || len(ef.Args) != 2 {
			continue
		}
		for _, a := range ef.Args[0] {
			if a.T.Op == "fa" && a.T.Args[0] == req {
				if out[a.T.Aux] == nil {
					out[a.T.Aux] = map[string]string{}
				}
				for _, v := range ef.Args[1] {
					keys(v.T, out[a.T.Aux], 0)
				}
			}
		}
	}
	return out, ""
}

func addressRoot(t *Term) *Term {
	for (t.Op == "fa" || t.Op == "ia") && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

// query compares the query parameters sent with those read.
func (cl *client) query(b *wbinding) {
	w, e, m := cl.w, cl.rv.e, cl.m
	var o *origin
	for _, x := range w.sv.origins {
		if x.kind == "http" && x.known && x.verb == strings.ToUpper(b.verb) && x.key == b.path {
			o = x
		}
	}
	if o == nil {
		w.unknown("what the server reads of %s %s", b.verb, b.path)
		return
	}
	read, why := w.keysRead(o)
	if why != "" {
		w.unknown("what the server reads of %s %s: %s", b.verb, b.path, why)
		return
	}
	sent, why := cl.sent()
	if why != "" {
		w.unknown("the query the HTTP client of %s sends: %s", m.name, why)
		return
	}
	kindOf := map[string]*schemField{}
	for _, f := range b.params {
		kindOf[f.field] = f
	}
	readAs := map[string]string{}
	for f, ks := range read {
		for k, loc := range ks {
			if loc == "query" {
				readAs[k] = f
			}
		}
	}
	for _, f := range b.params {
		if f.loc != "path" {
			continue
		}
		other := ""
		for _, k := range sortedKeys(read[f.field]) {
			if read[f.field][k] == "path" && k != f.proto {
				other = k
			}
		}
		switch {
		case read[f.field][f.proto] == "path" && other == "":
			w.ok("a field of type %s is read as the variable of the path it is sent as", f.kind.id)
		case other != "":
			w.viol(false, "http:pathname", "the server puts the variable %s of the path of %s in field %s, the path of its rule has it as %s", other, m.name, f.field, f.proto)
		default:
			w.unknown("what the server does with the variable %s of the path of %s", f.proto, m.name)
		}
	}
	bad := false
	sends := map[string]map[string]Node{}
	for _, p := range sent {
		to, isRead := readAs[p.name]
		for _, a := range p.val {
			if len(p.fields) == 1 && kindOf[p.fields[0]] != nil && kindOf[p.fields[0]].enum && enumName(a.T) {
				bad = true
				w.viol(false, "http:enumname", "the HTTP client of %s sends the name of the value of %s, an enum, as the query parameter %s; the server reads its number", m.name, p.fields[0], p.name)
			}
		}
		for _, f := range p.fields {
			if sends[f] == nil {
				sends[f] = map[string]Node{}
			}
			c := p.ef.Cond
			// a loop over a list sends each of its elements
			if n := len(p.ef.Loops); n > 0 {
				c = e.B.Or(c, p.ef.Loops[0].Entry)
				if w2 := w.inLoop(e, p.ef); w2 != "" {
					w.unknown("what the HTTP client of %s sends of %s: %s", m.name, f, w2)
				}
			}
			sends[f][p.name] = e.B.Or(sends[f][p.name], c)
			if isRead && to != f {
				bad = true
				w.viol(false, "http:queryfield", "the HTTP client of %s sends field %s as the query parameter %s, which the server puts in %s", m.name, f, p.name, to)
			}
		}
		if !isRead && len(p.fields) == 1 {
			f := p.fields[0]
			for k, loc := range read[f] {
				if loc == "query" {
					bad = true
					w.viol(false, "http:queryname", "the HTTP client of %s sends field %s as the query parameter %s, the server reads %s", m.name, f, p.name, k)
				}
			}
		}
	}
	for _, f := range sortedKeys(read) {
		for _, k := range sortedKeys(read[f]) {
			if read[f][k] != "query" || bad {
				continue
			}
			c, ok := sends[f][k]
			kd := "a field"
			if s := kindOf[f]; s != nil {
				kd = "a field of type " + s.kind.id
			}
			if !ok {
				w.viol(false, "http:unsent:"+strings.ReplaceAll(strings.TrimPrefix(kd, "a field of type "), " ", "-"), "the server reads %s of %s from the query parameter %s, the HTTP client never sends it", kd, m.name, k)
				continue
			}
			switch v, why := cl.whenSent(f, c); v {
			case broken:
				w.viol(false, "http:notsent", "the HTTP client of %s sends no %s, which the server reads for %s, when %s", m.name, k, kd, short(why, 200))
			case undecided:
				w.unknown("when the HTTP client of %s sends %s: %s", m.name, k, short(why, 200))
			default:
				w.ok("%s is sent and read as the query parameter %s", kd, k)
			}
		}
	}
}

// inLoop tells whether the condition of something in a loop is anything but
// the loop's own.
func (w *wiring) inLoop(e *gsa.Engine, ef *gsa.Effect) string {
	l := ef.Loops[len(ef.Loops)-1]
	c := e.B.And(l.Entry, e.B.Not(ef.Cond))
	if c == gsa.False || !e.Sat(c) {
		return ""
	}
	return short(e.CondString(c), 150)
}

// whenSent decides whether a field is sent whenever it is set.
func (cl *client) whenSent(f string, c Node) (verdict, string) {
	e := cl.rv.e
	bad := e.B.And(cl.send.Cond, e.B.Not(c))
	for v := range e.B.Support(bad) {
		t := e.VarTerm(v)
		if errAtom(t) {
			bad = e.B.Restrict(bad, v, true)
			continue
		}
		fs := cl.fieldsOf(t)
		if len(fs) != 1 || fs[0] != f {
			continue
		}
		switch {
		case t.Op == "eq" && (initial(t.Args[0]) || initial(t.Args[1])):
			bad = e.B.Restrict(bad, v, false)
		case t.Op == "load":
			bad = e.B.Restrict(bad, v, true)
		case t.Op == "lt" && initial(t.Args[0]) && t.Args[1].Op == "len":
			bad = e.B.Restrict(bad, v, true)
		case t.Op == "has" || t.Op == "eq" || t.Op == "lt":
		}
	}
	return decide(e, bad, opaqueTerm)
}

// wraps decides what the functions that put middleware around endpoints do.
func (w *wiring) wraps(fn string, labeled bool) {
	rv := w.b.eval(zqPBPath, "Endpoints."+fn)
	if rv == nil {
		w.unknown("Endpoints.%s not found", fn)
		return
	}
	e := rv.e
	keys := map[string]bool{}
	lost := false
	got := map[string]int{}
	bad := false
	excludes := false // whether anything depends on what is excluded
	for _, ef := range e.Effects {
		switch {
		case ef.Kind == "delete":
			excludes = true
		case ef.Kind == "mapupdate" && len(ef.Args) == 3:
			if k, ok := e.TermOf(ef.Args[1]).StrVal(); ok {
				keys[k] = true
			}
		case ef.Kind == "call" && strings.Contains(ef.Name, "zqtest/"):
			lost = true
		}
		if ef.Kind != "store" && ef.Kind != "lstore" || len(ef.Args) != 2 {
			continue
		}
		for _, a := range ef.Args[0] {
			if a.T.Op != "fa" || !strings.HasSuffix(a.T.Aux, "Endpoint") || !e.Sat(e.B.And(a.C, ef.Cond)) {
				continue
			}
			name := strings.TrimSuffix(a.T.Aux, "Endpoint")
			if w.w.method(name) == nil {
				continue
			}
			for _, v := range ef.Args[1] {
				if !e.Sat(e.B.And(v.C, ef.Cond)) {
					continue
				}
				t := v.T
				if t.Op != "call" || !strings.HasPrefix(t.CallName(), "dynamic") {
					continue
				}
				from := map[string]bool{}
				t.Walk(func(x *Term) bool {
					if x.Op == "fa" && strings.HasSuffix(x.Aux, "Endpoint") {
						from[strings.TrimSuffix(x.Aux, "Endpoint")] = true
					}
					return true
				})
				if len(from) != 1 {
					w.unknown("what %s puts around the endpoint of %s", fn, name)
					bad = true
					continue
				}
				if !from[name] {
					bad = true
					w.viol(true, "wrap:endpoint", "%s makes the endpoint of %s from that of %s", fn, name, sortedKeys(from)[0])
					continue
				}
				if labeled {
					label, ok := "", false
					for _, x := range t.Args {
						if s, isStr := x.StrVal(); isStr {
							label, ok = s, true
						} else if x.Op == "mapkey" {
							label, ok = name, true // the condition tells
						}
					}
					if !ok {
						w.unknown("the label %s gives to %s", fn, name)
						bad = true
						continue
					}
					if label != name {
						bad = true
						w.viol(true, "wrap:label", "%s wraps the endpoint of %s under the name %s", fn, name, label)
						continue
					}
				}
				// the names it depends on
				cond := e.B.And(v.C, ef.Cond)
				end := e.B.Support(rv.normal) // what a panic depends on
				for vv := range e.B.Support(cond) {
					at := e.VarTerm(vv)
					if _, ok := end[vv]; ok {
						continue
					}
					if at.Op == "has" || opaqueTerm(at) && !errAtom(at) || strings.Contains(at.String(), fn+".excluded[") {
						excludes = true
					}
				}
				about := map[string]bool{}
				for vv := range e.B.Support(cond) {
					at := e.VarTerm(vv)
					for i, x := range at.Args {
						if s, ok := x.StrVal(); ok && w.w.method(s) != nil && at.Op == "eq" && at.Args[1-i].Op == "mapkey" && e.Sat(e.B.And(cond, e.Atom(at))) {
							if !e.Sat(e.B.And(cond, e.B.Not(e.Atom(at)))) {
								about[s] = true
							}
						}
						if s, ok := x.StrVal(); ok && w.w.method(s) != nil && at.Op == "has" {
							about[s] = true
						}
					}
				}
				if len(about) == 1 && !about[name] {
					bad = true
					w.viol(true, "wrap:name", "%s wraps the endpoint of %s when %s is included", fn, name, sortedKeys(about)[0])
					continue
				}
				// whether it is left out for any other reason
				if n := len(ef.Loops); n > 0 && len(about) == 1 {
					left := e.B.And(ef.Loops[n-1].Entry, e.B.Not(cond))
					for vv := range e.B.Support(left) {
						at := e.VarTerm(vv)
						for i, x := range at.Args {
							if s, ok := x.StrVal(); ok && at.Op == "eq" && at.Args[1-i].Op == "mapkey" {
								left = e.B.Restrict(left, vv, s == name)
							}
						}
						if at.Op == "has" {
							left = e.B.Restrict(left, vv, true)
						}
					}
					switch v, why := decide(e, left, opaqueTerm); v {
					case broken:
						bad = true
						w.viol(true, "wrap:when", "%s leaves out the endpoint of %s, which is not excluded, when %s", fn, name, short(why, 200))
						continue
					case undecided:
						w.unknown("when %s wraps the endpoint of %s: %s", fn, name, short(why, 200))
						bad = true
						continue
					}
				}
				got[name]++
			}
		}
	}
	for _, m := range w.w.methods {
		if len(keys) > 0 && !keys[m.name] {
			bad = true
			w.viol(true, "wrap:missing", "%s does not include %s", fn, m.name)
		}
		if got[m.name] == 0 && !bad {
			if lost {
				w.unknown("whether %s wraps %s", fn, m.name)
			} else {
				w.viol(true, "wrap:missing", "%s does not wrap the endpoint of %s", fn, m.name)
			}
			bad = true
		}
	}
	if !excludes && !bad && !lost {
		bad = true
		w.viol(true, "wrap:excluded", "%s wraps the endpoints it is told to exclude", fn)
	}
	if !bad {
		w.ok("%s wraps each endpoint under its own name", fn)
	}
}

// runWiring judges the worlds.
// customised decides whether what is served is what the functions for the
// user's own middleware return: WrapEndpoints of the endpoints of the service
// that WrapService returns.
func (w *wiring) customised() {
	p := w.b.program()
	rv := w.b.evalWith(zqSvcPath+"/server", "Run", gsa.Policy{Recur: 1, Go: true, MaxDepth: 60, Inline: func(fn *ssa.Function) bool {
		if !p.InRepo(fn) {
			return false
		}
		if fn.Pkg != nil && fn.Parent() == nil && (fn.Pkg.Pkg.Path() == zqPBPath || fn.Pkg.Pkg.Path() == zqSvcPath+"/service") {
			return false
		}
		return true
	}})
	if rv == nil {
		return
	}
	e := rv.e
	is := func(ef *gsa.Effect, pkg, fn string) bool {
		return ef.Kind == "call" && strings.HasSuffix(ef.Name, pkg+"."+fn)
	}
	var wrapE *gsa.Effect
	var wrapS []*Term
	for _, ef := range e.Effects {
		if is(ef, zqSvcPath+"/service", "WrapEndpoints") && len(ef.Args) == 1 {
			wrapE = ef
		}
		if is(ef, zqSvcPath+"/service", "WrapService") && len(ef.Args) == 1 && ef.Res != nil {
			wrapS = append(wrapS, ef.Res)
		}
	}
	n := 0
	for _, x := range []struct{ kind, fn string }{{"http", "MakeHTTPHandler"}, {"grpc", "MakeGRPCServer"}, {"nats", "MakeNATSServer"}} {
		for _, ef := range e.Effects {
			if !is(ef, zqPBPath, x.fn) || len(ef.Args) == 0 || !e.Sat(ef.Cond) {
				continue
			}
			whole := e.TermOf(ef.Args[0])
			for _, m := range w.w.methods {
				n++
				t := whole
				if wrapE == nil || wrapE.Res == nil || !whole.Contains(wrapE.Res) {
					t = e.Path(whole, m.name+"Endpoint")
				}
				made := false
				t.Walk(func(x *Term) bool {
					made = made || x.Op == "call" && strings.HasSuffix(x.CallName(), "Make"+m.name+"Endpoint")
					return true
				})
				switch {
				case wrapE != nil && wrapE.Res != nil && t.Contains(wrapE.Res):
				case wrapE == nil || made:
					w.viol(true, "wrap:endpoints", "the endpoint of %s the generated server serves over %s is not what WrapEndpoints makes of it", m.name, x.kind)
					return
				default:
					w.unknown("what endpoint of %s the generated server serves over %s: %s", m.name, x.kind, short(t.String(), 100))
					return
				}
			}
		}
	}
	if n == 0 {
		w.unknown("what endpoints the generated server serves")
		return
	}
	for _, m := range w.w.methods {
		for _, ef := range e.Effects {
			if !is(ef, zqPBPath, "Make"+m.name+"Endpoint") || len(ef.Args) != 1 || !e.Sat(ef.Cond) {
				continue
			}
			t := bare(e.TermOf(ef.Args[0]))
			wrapped := false
			for _, s := range wrapS {
				wrapped = wrapped || t.Contains(s)
			}
			switch {
			case wrapped:
			case wrapS == nil || t.Op == "call" && strings.HasSuffix(t.CallName(), ".NewService"):
				w.viol(true, "wrap:service", "the endpoint of %s calls the service itself, not what WrapService makes of it", m.name)
				return
			default:
				w.unknown("what service the endpoint of %s calls: %s", m.name, short(t.String(), 100))
				return
			}
		}
	}
	w.ok("the endpoints served are those that WrapEndpoints makes of the endpoints of what WrapService makes of the service")
}

func runWiring(c *Ctx, r *Report, wire, names bool) {
	n, clients, origins := 0, 0, 0
	if wire {
		// what the templates go over has every method and binding
		c.httpHelper(r)
		c.httpMethod(r)
		c.labels(r)
	}
	for _, wd := range c.wiringWorlds(names) {
		b := c.buildWorld(wd)
		for _, p := range b.bad {
			r.Viol(p.key, 0, "%s (service %s)", p.text, wd.id)
		}
		for _, u := range b.unknown {
			r.Unknown("%s (service %s)", u, wd.id)
		}
		if len(b.bad)+len(b.unknown) > 0 {
			continue
		}
		w := &wiring{c: c, r: r, b: b, w: wd, wire: wire, names: names}
		b.program()
		w.sv = b.server()
		if w.sv.rv == nil {
			r.Unknown("%s", w.sv.lost)
			continue
		}
		n++
		origins += len(w.sv.origins)
		if wire {
			w.judgeServer()
			w.customised()
			w.wraps("WrapAllExcept", false)
			w.wraps("WrapAllLabeledExcept", true)
		}
		for _, m := range wd.methods {
			for _, k := range []string{"http", "grpc", "nats"} {
				if !wd.has(k) || k == "http" && len(m.bindings) == 0 {
					continue
				}
				if cl := w.client(k, m); cl != nil {
					clients++
					if wire {
						cl.judge()
					}
					cl.address()
				}
			}
		}
	}
	r.Analysed["schematic services"] = n
	r.Analysed["request sources of the servers"] = origins
	r.Analysed["client calls"] = clients
}

// wiringWorlds are the services whose wiring is followed.
func (c *Ctx) wiringWorlds(names bool) []*world {
	var out []*world
	for _, w := range c.worlds() {
		switch {
		case w.id == "all/shapes":
			out = append(out, w)
		case w.id == "all/kinds":
			if names {
				out = append(out, w)
			}
		case names && w.id != "all/several" && w.id != "grpc/mixed" && w.id != "nats/mixed":
		default:
			out = append(out, w)
		}
	}
	if names {
		for i := 1; i < 3; i++ {
			out = append(out, rotatedWorld(i))
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return false })
	return out
}

// rotatedWorld has the rules of each method in another order: a client uses
// the first.
func rotatedWorld(n int) *world {
	w := mkWorld("all", "several", false)
	w.id = fmt.Sprintf("all/rotated%d", n)
	for _, m := range w.methods {
		k := n % len(m.bindings)
		m.bindings = append(append([]*wbinding{}, m.bindings[k:]...), m.bindings[:k]...)
	}
	return w
}

func init() {
	assume := []string{
		"go-kit, grpc, gorilla/mux and nats pass requests on as the models in stubs.txt say",
		"the code protoc-gen-go and protoc-gen-go-grpc write is as they document it",
		"templates treat all RPCs, rules and fields alike (their loops are expanded for up to three, their names are symbols)",
	}
	register(&Check{
		ID: "C24",
		Rule: "call-graph and value flow through generated packages: the generated server's Run is followed with the endpoints, decoders, encoders and transports it puts together (libraries by models), " +
			"so that each source of requests (HTTP route, gRPC method, NATS subject) is traced to the handler it reaches and back: the handler is the one of the same RPC, its request is the one received, its " +
			"response is the answer, every rule of every RPC is reached when its transport's address is set; each client method is followed likewise; Wrap functions store each endpoint wrapped under its own name",
		Assumptions: assume,
		Run:         func(c *Ctx, r *Report) { runWiring(c, r, true, false) },
	})
	register(&Check{
		ID: "C25",
		Rule: "value flow through generated clients and servers: the full method name, subject, verb and path with which a client method sends its request are compared with those from which the generated server " +
			"reaches the handler of that RPC; each element of the path is the constant of the rule or a value of its own field; the query names sent for a field are those the server's decoder reads for it, and each " +
			"one read is sent whenever the field is set",
		Assumptions: assume,
		Run:         func(c *Ctx, r *Report) { runWiring(c, r, false, true) },
	})
}
