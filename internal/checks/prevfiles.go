package checks

import (
	"go/token"
	"strings"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C07", Rule: "Evaluates main.main symbolically. The walk over the service directory is found by its effect; its callback is evaluated once for each file the generator looks up and for each directory on the way (symbolic service name and service directory), for a readable and for an unreadable entry. A directory on the way must not be skipped, a file must end up opened (or read) under exactly the key that GenerateGokit looks up in Config.PreviousFiles, an unreadable one must make the walk fail, and a failed walk must not be followed by any write.",
		Assumptions: []string{"filepath.Walk and WalkDir behave as documented", "the two analyses of the definition files find the same service"}, Run: runC07})
}

func runC07(c *Ctx, r *Report) {
	m, err := c.MainEval(false)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	e := m.e
	r.Analysed["functions"] = funcsAnalysed(e)
	names, err := c.AssetNames()
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	// what generation is given
	calls := m.callsOf("/generator.GenerateGokit")
	if len(calls) == 0 {
		r.Unknown("main does not call generator.GenerateGokit")
		return
	}
	for _, call := range calls {
		c.previous(r, m, call, names)
	}
}

func (c *Ctx) previous(r *Report, m *mainEval, call *apiCall, names []string) {
	e := m.e
	if len(call.args) < 2 {
		r.Unknown("GenerateGokit has an unexpected signature")
		return
	}
	field := func(n string) GV {
		return e.Lift(func(ts []*Term) GV { return e.FieldOf(ts[0], n, nil) }, call.args[1])
	}
	prevs := e.Under(field("PreviousFiles"), call.cond)
	svcPath := field("ServicePath")
	var svc *Term
	for _, a := range e.Under(call.args[0], call.cond) {
		s := e.Path(a.T, "Service.Name")
		if svc != nil && s != svc {
			r.Unknown("several definitions reach GenerateGokit")
			return
		}
		svc = s
	}
	if svc == nil {
		r.Unknown("the service of the definition is not found")
		return
	}
	g := &gen{e: e, svcName: svc}
	walks := 0
	seen := map[*gsa.Loop]bool{}
	for _, ef := range e.Effects {
		if ef.Kind != "mapupdate" {
			continue
		}
		for _, l := range ef.Loops {
			if l.Kind != "walk" || seen[l] {
				continue
			}
			mp := ef.Args[0].One()
			given := false
			for _, a := range prevs {
				if a.T == mp {
					given = true
				}
			}
			if !given {
				continue
			}
			seen[l] = true
			walks++
			c.walk(r, m, g, l, mp, ef, names)
			// the map is what generation gets, whenever the directory is there
			cond := call.cond
			rest := gsa.False
			for _, a := range prevs {
				if a.T != mp {
					rest = e.B.Or(rest, e.B.And(cond, a.C))
				}
			}
			rest = e.B.And(rest, existing(e, rest))
			r.obligeX(e, rest, "dropped", ef, "the files read reach GenerateGokit", "the files read from the service directory do not reach GenerateGokit", opaquePath)
			// the directory walked is the one written to
			var ne gsa.Node = gsa.False
			for _, a := range l.OverG {
				for _, b := range svcPath {
					ne = e.B.Or(ne, e.B.And(a.C, b.C, e.B.Not(e.EqNode(a.T, b.T))))
				}
			}
			r.obligeX(e, e.B.And(ne, call.cond, l.Entry), "elsewhere", ef, "previous files are read from the service directory", "previous files are not read from the service directory generation writes to", opaquePath)
			// nothing is taken out again
			for _, d := range e.Effects {
				if d.Kind == "delete" && d.Args[0].One() == mp {
					r.Unknown("entries of the previous files are removed")
				}
			}
			// a failed walk ends the run
			if l.Err == nil {
				r.Unknown("the error of the walk is not found")
				continue
			}
			failed := e.B.Not(e.NilNode(l.Err))
			bad := gsa.False
			var at *gsa.Effect
			for _, w := range e.Effects {
				if w.Seq > ef.Seq && (mutators[w.Name] != 0) && w.Kind == "call" && !inLoop(w, l) && w.Name != "os.RemoveAll" {
					if n := e.B.And(w.Cond, failed, l.Entry); e.Sat(n) {
						bad = e.B.Or(bad, n)
						at = w
					}
				}
			}
			r.obligeX(e, bad, "ignored", at, "a failed walk ends the run before anything is written", "the run goes on and writes after the walk over the previous files failed", opaquePath)
		}
	}
	if walks == 0 {
		r.Unknown("no walk fills the previous files")
	}
}

func inLoop(ef *gsa.Effect, l *gsa.Loop) bool {
	for _, x := range ef.Loops {
		if x == l {
			return true
		}
	}
	return false
}

// opaquePath is opaqueTerm for conditions of main: the values there come from
// flags, the environment and the file system, all of which are free.
func opaquePath(t *Term) bool { return false }

// existing says that every file or directory asked for is there.
func existing(e *gsa.Engine, ns ...Node) Node {
	ax := gsa.True
	for _, n := range ns {
		for v := range e.B.Support(n) {
			t := e.VarTerm(v)
			if t.Op == "eq" && strings.Contains(t.String(), "os.Stat(") && errAtom(t) {
				ax = e.B.And(ax, e.Atom(t))
			}
		}
	}
	return ax
}

// walk checks the callback of the walk which collects the previous files.
func (c *Ctx) walk(r *Report, m *mainEval, g *gen, l *gsa.Loop, mp *Term, at *gsa.Effect, names []string) {
	e := m.e
	var keys []string
	for _, n := range names {
		if userOwned[n] || n == serviceAsset {
			keys = append(keys, n)
		}
	}
	lower := e.Call("strings.ToLower", strT, g.svcName)
	parts := func(asset string) []*Term {
		var out []*Term
		for _, p := range strings.Split(strings.TrimSuffix(asset, ".tmpl"), "/") {
			var el []*Term
			for i, s := range strings.Split(p, "NAME") {
				if i > 0 {
					el = append(el, lower)
				}
				el = append(el, e.Str(s))
			}
			out = append(out, e.Cat(el...))
		}
		return out
	}
	if len(l.Params) != 3 {
		r.Unknown("the callback of the walk has %d parameters", len(l.Params))
		return
	}
	dirs := map[string][]*Term{"": nil}
	files := map[string][]*Term{}
	for _, k := range keys {
		ps := parts(k)
		files[strings.TrimSuffix(k, ".tmpl")] = ps
		fs := strings.Split(k, "/")
		for i := 1; i < len(fs); i++ {
			dirs[strings.Join(fs[:i], "/")] = ps[:i]
		}
	}
	pathOf := func(ps []*Term) GV {
		return e.Lift1(func(ts []*Term) *Term {
			if len(ps) == 0 {
				return ts[0]
			}
			return e.Join(append([]*Term{ts[0]}, ps...)...)
		}, l.OverG)
	}
	base := func(p GV) GV {
		return e.Lift1(func(ts []*Term) *Term { return e.Base(ts[0]) }, p)
	}
	replay := func(p GV, dir bool, ioerr GV) ([]GV, Node, []*gsa.Effect) {
		old := e.CallHook
		e.CallHook = func(e *gsa.Engine, name string, args []gsa.GV, cond gsa.Node, pos token.Pos) ([]gsa.GV, bool) {
			if i := strings.LastIndexByte(name, '.'); i > 0 && strings.HasPrefix(name, "(") {
				switch rt := name[:i]; rt {
				case "(io/fs.FileInfo)", "(os.FileInfo)", "(io/fs.DirEntry)", "(os.DirEntry)":
					switch name[i+1:] {
					case "Name":
						return []gsa.GV{base(p)}, true
					case "IsDir":
						return []gsa.GV{gsa.V(e.Bool(dir))}, true
					}
				case "(io/fs.FileMode)", "(os.FileMode)":
					switch name[i+1:] {
					case "IsDir":
						return []gsa.GV{gsa.V(e.Bool(dir))}, true
					case "IsRegular": // a file may be reached over a symbolic link
						if dir {
							return []gsa.GV{gsa.V(e.Bool(false))}, true
						}
					}
				}
			}
			return old(e, name, args, cond, pos)
		}
		defer func() { e.CallHook = old }()
		return e.Replay(l, []gsa.GV{p, gsa.V(l.Params[1]), ioerr})
	}
	isSkip := func(t *Term) bool {
		s := t.String()
		return strings.HasSuffix(s, ".SkipDir") || strings.HasSuffix(s, ".SkipAll")
	}
	// the condition under which a result does not end the walk with an error
	goesOn := func(res GV, normal Node) Node {
		n := gsa.False
		for _, a := range res {
			c := e.B.And(a.C, normal)
			if isSkip(a.T) {
				n = e.B.Or(n, c)
			} else {
				n = e.B.Or(n, e.B.And(c, e.NilNode(a.T)))
			}
		}
		return n
	}
	stops := func(res GV, normal Node) Node {
		n := gsa.False
		for _, a := range res {
			c := e.B.And(a.C, normal)
			if isSkip(a.T) {
				n = e.B.Or(n, c)
			} else {
				n = e.B.Or(n, e.B.And(c, e.B.Not(e.NilNode(a.T))))
			}
		}
		return n
	}
	noErr := func(ns ...Node) Node {
		ax := gsa.True
		for _, n := range ns {
			for v := range e.B.Support(n) {
				if t := e.VarTerm(v); errAtom(t) {
					ax = e.B.And(ax, e.Atom(t))
				}
			}
		}
		return ax
	}
	nilErr := gsa.V(e.Nil())
	ioerr := gsa.V(l.Params[2])
	gone := func(n Node) Node { // an entry which is not there is not unreadable
		ax := gsa.True
		for v := range e.B.Support(n) {
			t := e.VarTerm(v)
			s := t.String()
			if strings.Contains(s, "IsNotExist(") || strings.Contains(s, "ErrNotExist") {
				ax = e.B.And(ax, e.B.Not(e.Atom(t)))
			}
		}
		return ax
	}
	opq := func(t *Term) bool {
		// conditions on the entry which were not resolved
		bad, vague, about := false, false, false
		t.Walk(func(x *Term) bool {
			switch x.Op {
			case "undef":
				bad = true
			case "walk":
				bad = bad || x != l.Params[2]
			case "lm", "app", "phi", "recv":
				vague = true
			case "has", "lookup":
				bad = bad || x.Args[0].Op == "makemap"
			case "call":
				// what the file system says about the entry is free
				if i := strings.LastIndexByte(x.CallName(), '.'); i > 0 && (x.CallName()[:i] == "(os.FileInfo)" || x.CallName()[:i] == "(io/fs.FileInfo)") {
					return false
				}
			}
			for _, a := range l.OverG {
				about = about || x == a.T
			}
			return !bad
		})
		return bad || vague && about
	}
	unread := func(what string, p GV, dir bool) {
		res, normal, _ := replay(p, dir, ioerr)
		if len(res) == 0 {
			return
		}
		bad := e.B.And(goesOn(res[0], normal), e.B.Not(e.NilNode(l.Params[2])))
		bad = e.B.And(bad, gone(bad))
		// whatever the (possibly missing) information about the entry says
		r.obligeX(e, bad, "unreadable "+what, at, what+" which cannot be read fails the walk", what+" which cannot be read is treated as absent", opq)
	}
	for _, d := range sortedKeys(dirs) {
		p := pathOf(dirs[d])
		res, normal, _ := replay(p, true, nilErr)
		if len(res) == 0 {
			continue
		}
		bad := stops(res[0], normal)
		r.obligeX(e, e.B.And(bad, noErr(bad)), "skipped "+d, at, "the walk enters directory "+quote(d), "the walk does not enter directory "+quote(d)+" of the service", opq)
		unread("directory "+quote(d), p, true)
	}
	for _, f := range sortedKeys(files) {
		p := pathOf(files[f])
		res, normal, effs := replay(p, false, nilErr)
		if len(res) == 0 {
			continue
		}
		key := g.outName(f + ".tmpl")
		there := gsa.False
		ne := noErr(normal, l.Entry)
		var vals []gsa.Alt
		for _, ef := range effs {
			ne = e.B.And(ne, noErr(ef.Cond))
			if ef.Kind != "mapupdate" || ef.Args[0].One() != mp {
				continue
			}
			for _, k := range ef.Args[1] {
				if cc := e.B.And(k.C, ef.Cond, e.EqNode(k.T, key)); cc != gsa.False {
					there = e.B.Or(there, cc)
					for _, v := range ef.Args[2] {
						vals = append(vals, gsa.Alt{C: e.B.And(cc, v.C), T: v.T})
					}
				}
			}
		}
		bad := e.B.And(l.Entry, ne, e.B.Not(there))
		r.obligeX(e, bad, "lost "+f, at, f+" is offered under the key generation looks up", "the existing file "+f+" is not offered to generation under "+key.String(), opq)
		bad = e.B.And(stops(res[0], normal), ne)
		r.obligeX(e, bad, "stops "+f, at, "the walk goes on after "+f, "the walk does not go on after "+f, opq)
		// the value is the whole file
		for _, v := range vals {
			if !e.Sat(v.C, ne) {
				continue
			}
			c.wholeFile(r, e, f, p, v, effs, at)
		}
		// failures of reading it
		for _, ef := range effs {
			if ef.Kind != "call" || ef.Res == nil {
				continue
			}
			switch ef.Name {
			case "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile", "io.ReadAll", "io/ioutil.ReadAll", "io.Copy", "(*bytes.Buffer).ReadFrom":
			default:
				continue
			}
			er := errOf(e, ef)
			if er == nil {
				continue
			}
			bad := e.B.And(goesOn(res[0], normal), ef.Cond, e.B.Not(e.NilNode(er)))
			bad = e.B.And(bad, gone(bad))
			r.obligeX(e, bad, "unread "+f, ef, f+" which cannot be read fails the walk ("+ef.Name+")", "when "+ef.Name+" fails for "+f+" the walk goes on as if the file were absent", opq)
		}
		unread(f, p, false)
	}
}

func quote(d string) string {
	if d == "" {
		return "of the service itself"
	}
	return `"` + d + `"`
}

// errOf is the error result of a call.
func errOf(e *gsa.Engine, ef *gsa.Effect) *Term {
	if ef.Res == nil {
		return nil
	}
	for _, n := range []string{"err", "1", "2", "0"} {
		if t := e.Find("res", n, ef.Res); t != nil && t.Typ != nil && t.Typ.String() == "error" {
			return t
		}
	}
	if ef.Res.Typ != nil && ef.Res.Typ.String() == "error" {
		return ef.Res
	}
	return nil
}

// wholeFile checks that v reads the file at p from start to end.
func (c *Ctx) wholeFile(r *Report, e *gsa.Engine, f string, p GV, v gsa.Alt, effs []*gsa.Effect, at *gsa.Effect) {
	t := v.T
	if t.Op == "mk" {
		t = t.Args[0]
	}
	what := "what is offered for " + f + " reads that file"
	src := t
	if t.Op == "reader" || t.Op == "object" || t.Op == "alloc" {
		src = e.Content(t).One()
		if src != nil && src.Op == "call" && src.CallName() == "content" {
			src = src.Args[0]
		}
	}
	if src == nil || src.Op != "res" || src.Args[0].Op != "call" {
		r.Unknown("%s: %s", what, short(t.String(), 100))
		return
	}
	call := src.Args[0]
	switch call.CallName() {
	case "os.Open", "os.ReadFile", "io/ioutil.ReadFile":
	default:
		r.Unknown("%s: %s", what, short(t.String(), 100))
		return
	}
	bad := gsa.False
	for _, b := range gsa.Unbox(call.Args[0]) {
		for _, a := range p {
			bad = e.B.Or(bad, e.B.And(v.C, a.C, b.C, e.B.Not(e.EqNode(a.T, b.T))))
		}
	}
	r.obligeX(e, bad, "other "+f, at, what, "what is offered for "+f+" is another file: "+short(t.String(), 120), opaquePath)
	for _, ef := range effs {
		if ef.Kind == "call" && len(ef.Args) > 0 && ef.Args[0].One() == t && strings.HasPrefix(ef.Name, "(*os.File).") && ef.Name != "(*os.File).Stat" && ef.Name != "(*os.File).Name" {
			r.obligeX(e, e.B.And(ef.Cond, v.C), "used "+f, ef, what, f+" is offered to generation after "+ef.Name, opaquePath)
		}
	}
}
