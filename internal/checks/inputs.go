package checks

import (
	"strings"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C26", Rule: "Evaluates main.main symbolically. Every protoc command must be given the list made of every command-line argument (or its absolute path) and besides it only options; both maps given to each svcdef.New must hold an opened file for every definition, and for every definition the .pb.go file, and the _grpc.pb.go file where it exists, of the directory that protoc was told to write to. Nothing is run or written unless a comparison of the directory of every definition with the first one's has succeeded.", Run: runC26})
}

// defLists follows lists of definition files.
type defLists struct {
	e     *gsa.Engine
	p     *outPaths
	at    Node // where the list is used
	skip  []string
	loops []*gsa.Loop // loops the list was made in
	known map[*Term]verdict
	why   string
}

// item is what a list has for an iteration of the loop that made it.
type item struct {
	t    *Term
	cond Node
}

// segment is a part of a list: one item, or what a loop appended, or another
// list.
type segment struct {
	item  *Term
	list  *Term
	loop  *gsa.Loop
	items []item
	skip  []Node // conditions under which an iteration added nothing or less
	dirty bool
}

// segments cuts a list into its parts.
func (d *defLists) segments(t *Term) (out []*segment, ok bool) {
	e := d.e
	switch {
	case t.IsNil() || emptySlice(t):
		return nil, true
	case t.Op == "box":
		return nil, false
	case t.Op == "slicelit":
		if len(t.Args) == 1 && t.Args[0].Op == "alloc" {
			return nil, false
		}
		for _, a := range t.Args {
			out = append(out, &segment{item: a})
		}
		return out, true
	case t.Op == "app":
		out, ok = d.segments(t.Args[0])
		if !ok {
			return nil, false
		}
		for _, a := range t.Args[1:] {
			if a.Op == "spread" {
				s, ok := d.segments(a.Args[0])
				if !ok {
					return nil, false
				}
				out = append(out, s...)
			} else {
				out = append(out, &segment{item: a})
			}
		}
		return out, true
	case t.Op == "mkslice":
		if len(t.Args) > 0 && t.Args[0] == e.Int(0) {
			return nil, true
		}
		s := &segment{}
		for _, ef := range e.Effects {
			if ef.Kind != "store" && ef.Kind != "lstore" || len(ef.Args) < 2 {
				continue
			}
			a := ef.Args[0].One()
			if a == nil || a.Op != "ia" || a.Args[0] != t {
				continue
			}
			if s.loop != nil || len(ef.Loops) == 0 || a.Args[1].Op != "iter" {
				return nil, false
			}
			s.loop = ef.Loops[len(ef.Loops)-1]
			if s.loop.Over == nil || s.loop.Over.Typ == nil || len(t.Args) == 0 || t.Args[0].Op != "len" || t.Args[0].Args[0] != s.loop.Over {
				return nil, false
			}
			for _, v := range ef.Args[1] {
				s.items = append(s.items, item{v.T, e.B.And(ef.Cond, v.C)})
			}
		}
		if s.loop == nil {
			return nil, false
		}
		return []*segment{s}, true
	case t.Op == "phi":
		pi := e.PhiInfo(t)
		if pi == nil || pi.Loop == nil {
			return nil, false
		}
		for _, a := range pi.Init {
			if len(pi.Init) > 1 && !a.T.IsNil() && a.T.Op != "mkslice" {
				return nil, false
			}
			s, ok := d.segments(a.T)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		s := &segment{loop: pi.Loop}
		for _, a := range pi.Next {
			if a.C == gsa.False {
				continue
			}
			x := a.T
			for x.Op == "app" && x != t {
				for _, y := range x.Args[1:] {
					if y.Op == "spread" {
						return nil, false
					}
					if y.Op == "box" {
						for _, b := range gsa.Unbox(y) {
							s.items = append(s.items, item{b.T, e.B.And(a.C, b.C)})
						}
						continue
					}
					s.items = append(s.items, item{y, a.C})
				}
				x = x.Args[0]
			}
			if x != t {
				return nil, false
			}
		}
		return append(out, s), true
	case t.Op == "slice":
		lo, hi := t.Args[1], t.Args[2]
		if (lo.IsNil() || lo == e.Int(0)) && (hi.IsNil() || hi.Op == "len" && hi.Args[0] == t.Args[0]) {
			return d.segments(t.Args[0])
		}
		return []*segment{{list: t}}, true
	case t.Op == "call":
		return []*segment{{list: t}}, true
	}
	return nil, false
}

// argList is the list of the arguments of the program.
func argList(t *Term) bool { return t.CallName() == "github.com/spf13/pflag.Args" }

// isAll decides whether a list has every definition file and nothing else.
func (d *defLists) isAll(t *Term) verdict {
	if argList(t) {
		return holds
	}
	if v, ok := d.known[t]; ok {
		return v
	}
	d.known[t] = undecided
	v := d.decideAll(t)
	d.known[t] = v
	return v
}

func (d *defLists) decideAll(t *Term) verdict {
	segs, ok := d.segments(t)
	if !ok {
		d.why = "the list " + short(t.String(), 80)
		return undecided
	}
	if len(segs) == 0 {
		d.why = "the list is empty"
		return broken
	}
	if len(segs) == 1 && segs[0].list != nil {
		t := segs[0].list
		if argList(t) {
			return holds
		}
		if t.Op == "slice" && d.isAll(t.Args[0]) == holds {
			_, c1 := t.Args[1].IntVal()
			_, c2 := t.Args[2].IntVal()
			if c1 && t.Args[1] != d.e.Int(0) || c2 {
				d.why = "only " + short(t.String(), 80)
				return broken
			}
		}
	}
	// one loop over the definitions
	if len(segs) == 1 && segs[0].loop != nil {
		return d.everyItem(segs[0], func(x *Term) verdict { return d.isDef(x) }, gsa.True)
	}
	for _, s := range segs {
		if s.item == nil {
			d.why = "the list " + short(t.String(), 80)
			return undecided
		}
	}
	// a fixed number of files
	for _, s := range segs {
		if d.isFile(s.item) != holds {
			d.why = "the list " + short(t.String(), 80)
			return undecided
		}
	}
	d.why = "only " + short(segs[0].item.String(), 80)
	return broken
}

// isFile says that the term is one of the arguments.
func (d *defLists) isFile(t *Term) verdict {
	t = absOf(t)
	if isArg(t) {
		return holds
	}
	if t.Op == "load" && t.Args[0].Op == "ia" {
		return d.isAll(t.Args[0].Args[0])
	}
	return undecided
}

// absOf is the path a term is the absolute or cleaned form of.
func absOf(t *Term) *Term {
	for {
		switch {
		case t.Op == "res" && t.Aux == "0" && t.Args[0].CallName() == "path/filepath.Abs":
			t = t.Args[0].Args[0]
		case t.CallName() == "path/filepath.Clean":
			t = t.Args[0]
		default:
			return t
		}
	}
}

// elemOf says that t is the element of the current iteration of a loop over
// every definition.
func (d *defLists) elemOf(t *Term, l *gsa.Loop) verdict {
	t = absOf(t)
	if t.Op != "load" || t.Args[0].Op != "ia" {
		return undecided
	}
	x, i := t.Args[0].Args[0], t.Args[0].Args[1]
	if i.Op != "iter" {
		if _, is := i.IntVal(); is && d.isAll(x) == holds {
			d.why = "always the same file"
			return broken
		}
		return undecided
	}
	if l != nil && i.Aux != l.ID {
		return undecided
	}
	if l == nil {
		l = d.e.LoopByID(i.Aux)
	}
	if v := d.isAll(x); v != holds {
		return v
	}
	return d.complete(l, x)
}

func (d *defLists) isDef(t *Term) verdict { return d.elemOf(t, nil) }

// complete decides whether a loop visits all of a list before d.at.
func (d *defLists) complete(l *gsa.Loop, x *Term) verdict {
	if l == nil || l.Kind != "slice" && l.Kind != "count" {
		d.why = "a loop"
		return undecided
	}
	if l.Over != x && !(l.Over != nil && l.Over.Op == "len" && l.Over.Args[0] == x) {
		// a loop over another list of the same length
		if l.Over == nil || d.isAll(l.Over) != holds {
			d.why = "a loop over something else"
			return undecided
		}
	}
	return d.stops(l)
}

// stops decides whether a loop starts with the first and ends with the last.
func (d *defLists) stops(l *gsa.Loop) verdict {
	if l.Offset != 0 {
		d.why = "the loop does not start at the first definition"
		if l.Offset > 0 {
			return broken
		}
		return undecided
	}
	for _, ex := range l.Exits {
		if v, w := decide(d.e, d.e.B.And(ex.Cond, d.at), opaqueErr); v != holds {
			d.why = "the loop can stop early when " + w
			return v
		}
	}
	return holds
}

// everyItem decides whether the loop that made a part of a list added an item
// that is accepted in every iteration (when must holds), and only such items.
func (d *defLists) everyItem(s *segment, accept func(*Term) verdict, must Node) verdict {
	e := d.e
	cover := gsa.False
	for _, it := range s.items {
		switch accept(it.t) {
		case holds:
			cover = e.B.Or(cover, it.cond)
		case broken:
			return broken
		default:
			if d.why == "" {
				d.why = short(it.t.String(), 80)
			}
			return undecided
		}
	}
	v, w := d.leftOut(s.loop, cover, must)
	if v != holds {
		d.why = "a definition is left out when " + w
		return v
	}
	return d.complete(s.loop, s.loop.Over)
}

// leftOut decides whether a loop that goes through the definitions always
// comes past cover. What is known when the list is used does not count as a
// reason not to know; what decides about cover does.
func (d *defLists) leftOut(l *gsa.Loop, cover, must Node) (verdict, string) {
	e := d.e
	given := e.B.And(d.at, l.Back, must)
	opaque := func(t *Term) bool {
		if errAtom(t) {
			return false
		}
		if opaqueTermInLoop(t) {
			return true
		}
		own := false // what earlier iterations did
		t.Walk(func(x *Term) bool {
			if x.Op == "phi" {
				pi := e.PhiInfo(x)
				own = own || pi == nil || pi.Loop == l
			}
			return !own
		})
		return own
	}
	if !e.Sat(e.B.AndNot(given, cover)) {
		return holds, ""
	}
	c := e.B.Simplify(cover, given)
	for v := range e.B.Support(cover) {
		t := e.VarTerm(v)
		if opaque(t) {
			continue
		}
		for _, n := range []Node{e.Atom(t), e.B.Not(e.Atom(t))} {
			if e.Sat(e.B.And(given, n)) && !e.Sat(e.B.And(given, n, cover)) {
				return broken, e.CondString(n)
			}
		}
	}
	for v := range e.B.Support(c) {
		if opaque(e.VarTerm(v)) {
			c = e.B.Or(e.B.Restrict(c, v, false), e.B.Restrict(c, v, true))
		}
	}
	bad := e.B.AndNot(given, c)
	if !e.Sat(bad) {
		return undecided, "what the loop did before matters"
	}
	return broken, e.Witness(e.B.Not(c))
}

// opaqueTermInLoop: conditions on what the loop did before are not known.
func opaqueTermInLoop(t *Term) bool {
	if opaqueErr(t) {
		return true
	}
	bad := false
	t.Walk(func(x *Term) bool {
		switch x.Op {
		case "has", "lookup":
			bad = bad || x.Args[0].Op == "makemap"
		case "eq":
			bad = bad || ownNil(x)
		case "call":
			bad = bad || !knownCall(x.CallName()) && !strings.HasPrefix(x.CallName(), "os.") && !argList(x) && !strings.Contains(x.CallName(), "/pflag.")
		}
		return !bad
	})
	return bad
}

// dirFlag is the value of an option of a command.
func dirFlag(e *gsa.Engine, args []*Term, flag string) *Term {
	for _, a := range args {
		h, rest := cutCat(a)
		if s, ok := h.StrVal(); ok && strings.HasPrefix(s, flag) {
			s = strings.TrimPrefix(s, flag)
			if len(rest) == 0 {
				return e.Str(s)
			}
			if s == "" && len(rest) == 1 {
				return rest[0]
			}
			return nil
		}
	}
	return nil
}

// commandArgs lists the single arguments of a command.
func (d *defLists) commandArgs(ef *gsa.Effect) (out []*Term) {
	for _, g := range ef.Args[1:] {
		for _, a := range g {
			segs, ok := d.segments(a.T)
			if !ok {
				out = append(out, a.T)
			}
			for _, s := range segs {
				if s.item != nil {
					out = append(out, s.item)
				}
			}
		}
	}
	return out
}

func runC26(c *Ctx, r *Report) {
	m, err := c.MainEval(false)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	e := m.e
	p, err := c.outPaths(m)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	r.Analysed["functions"] = funcsAnalysed(e)
	var execs []*gsa.Effect
	for _, ef := range e.Effects {
		if isExec(ef) && len(ef.Args) > 0 {
			if s, ok := oneStr(ef.Args[0]); ok && s == "protoc" {
				execs = append(execs, ef)
			} else if !ok {
				r.Unknown("the command run in %s", stackName(ef))
			}
		}
	}
	if len(execs) == 0 {
		r.Unknown("protoc is not run by a known function")
		return
	}
	for _, ef := range execs {
		c.protocArgs(r, e, p, ef)
		c.sameDir(r, e, p, ef)
	}
	n := 0
	for _, ef := range e.Effects {
		if ef.Kind == "call" && ef.Name == c.mod("svcdef")+".New" && len(ef.Args) == 2 {
			n++
			c.newArgs(r, e, p, ef, execs)
		}
	}
	if n == 0 {
		r.Unknown("main does not call svcdef.New")
	}
	for _, x := range mutations(e) {
		if x.kind == "temp" || p.starting(x.ef.Cond) {
			continue
		}
		after := false
		for _, ef := range execs {
			if ef.Seq < x.ef.Seq && !e.Sat(e.B.AndNot(x.ef.Cond, ef.Cond)) {
				after = true
			}
		}
		if !after && x.kind != "remove" {
			c.sameDir(r, e, p, x.ef)
		}
	}
}

func oneStr(g GV) (string, bool) {
	if t := g.One(); t != nil {
		return t.StrVal()
	}
	return "", false
}

func (c *Ctx) lists(e *gsa.Engine, p *outPaths, at Node) *defLists {
	return &defLists{e: e, p: p, at: at, known: map[*Term]verdict{}}
}

// protocArgs checks the arguments of a protoc command.
func (c *Ctx) protocArgs(r *Report, e *gsa.Engine, p *outPaths, ef *gsa.Effect) {
	d := c.lists(e, p, ef.Cond)
	what := "protoc in " + stackName(ef) + " is given every definition file"
	all := false
	sure := true
	var add func(t *Term)
	add = func(t *Term) {
		segs, ok := d.segments(t)
		if !ok {
			sure = false
			return
		}
		for _, s := range segs {
			switch {
			case s.item != nil:
				h, _ := cutCat(s.item)
				if str, ok := h.StrVal(); ok {
					if !strings.HasPrefix(str, "-") && str != "" {
						r.Viol("file "+str, ef.Pos, "protoc in %s is given %s, which is not a definition file of the command line", stackName(ef), short(s.item.String(), 80))
					}
					continue
				}
				if d.isFile(s.item) != holds {
					sure = false
				}
			case s.list != nil:
				switch d.isAll(s.list) {
				case holds:
					all = true
				case undecided:
					sure = false
				}
			case s.loop != nil:
				options := len(s.items) > 0
				for _, it := range s.items {
					h, _ := cutCat(it.t)
					str, ok := h.StrVal()
					options = options && ok && strings.HasPrefix(str, "-")
				}
				if options {
					continue
				}
				d.why = ""
				switch d.everyItem(s, func(x *Term) verdict { return d.isDef(x) }, gsa.True) {
				case holds:
					all = true
				case broken:
					r.Viol("protoc list "+stackName(ef), ef.Pos, "protoc in %s is not given every definition file: %s", stackName(ef), d.why)
					all = true
				default:
					sure = false
				}
			}
		}
	}
	for _, g := range ef.Args[1:] {
		t := g.One()
		if t == nil {
			sure = false
			continue
		}
		if t.Op == "app" || t.Op == "slicelit" || t.Op == "phi" || t.Op == "mkslice" || t.Op == "call" || t.Op == "spread" {
			if t.Op == "spread" {
				t = t.Args[0]
			}
			add(t)
			continue
		}
		if h, _ := cutCat(t); h.IsConst() {
			if s, ok := h.StrVal(); ok && !strings.HasPrefix(s, "-") {
				sure = false
			}
			continue
		}
		sure = false
	}
	switch {
	case all:
		r.Ok("%s", what)
	case sure:
		r.Viol("protoc "+stackName(ef), ef.Pos, "protoc in %s is not given the list of the definition files", stackName(ef))
	default:
		if d.why != "" {
			what += ": " + d.why
		}
		r.Unknown("%s", what)
	}
}

// sameDir checks that an operation is reached only if all definitions are in
// one directory.
func (c *Ctx) sameDir(r *Report, e *gsa.Engine, p *outPaths, ef *gsa.Effect) {
	d := c.lists(e, p, ef.Cond)
	what := ef.Name + " in " + stackName(ef) + " is reached only when all definition files are in one directory"
	related := false
	why := ""
	for v := range e.B.Support(ef.Cond) {
		t := e.VarTerm(v)
		if t.Op == "eq" && len(t.Args) == 2 {
			a, b := dirOf(t.Args[0]), dirOf(t.Args[1])
			if a == nil || b == nil {
				if a == nil {
					a, b = b, a
				}
				if a != nil {
					related = true
					if d.firstDir(ef.Cond, a, t) {
						r.Ok("%s", what)
						return
					}
				}
				continue
			}
			if d.first(a) {
				a, b = b, a
			}
			if !d.first(b) {
				related = true
				continue
			}
			d.why = ""
			switch d.isDef(a) {
			case holds:
				if !e.Sat(e.B.AndNot(ef.Cond, e.Atom(t))) {
					r.Ok("%s", what)
					return
				}
				why = "the comparison does not stop it"
			default:
				related = true
				if d.why != "" {
					why = d.why
				}
				// also a loop that begins with the second definition
				if x := absOf(a); x.Op == "load" && x.Args[0].Op == "ia" {
					if y := x.Args[0].Args[0]; y.Op == "slice" && x.Args[0].Args[1].Op == "iter" && (y.Args[1] == e.Int(1) || y.Args[1] == e.Int(0)) && y.Args[2].IsNil() && d.isAll(y.Args[0]) == holds && !e.Sat(e.B.AndNot(ef.Cond, e.Atom(t))) {
						if l := e.LoopByID(x.Args[0].Args[1].Aux); l != nil && l.Over == y && d.stops(l) == holds {
							r.Ok("%s", what)
							return
						}
					}
					if y := x.Args[0].Args[1]; y.Op == "op" && y.Aux == "+" && y.Args[0].Op == "iter" && y.Args[1] == e.Int(1) && d.isAll(x.Args[0].Args[0]) == holds && !e.Sat(e.B.AndNot(ef.Cond, e.Atom(t))) {
						l := e.LoopByID(y.Args[0].Aux)
						if l != nil && l.Offset == 1 {
							r.Ok("%s", what)
							return
						}
					}
				}
			}
			continue
		}
		t.Walk(func(x *Term) bool {
			if x.Op == "phi" || x.Op == "lm" || x.Op == "has" {
				// something collected before
				if x.Typ == nil || !strings.Contains(x.Typ.String(), "[]string") {
					related = true
				}
			}
			return !related
		})
	}
	if related || why != "" {
		if why == "the comparison does not stop it" {
			r.Viol("directory "+stackName(ef), ef.Pos, "%s is reached although definition files are in different directories", ef.Name+" in "+stackName(ef))
			return
		}
		r.Unknown("%s: %s", what, why)
		return
	}
	r.Viol("directory "+stackName(ef), ef.Pos, "%s is reached without comparing the directories of the definition files", ef.Name+" in "+stackName(ef))
}

// firstDir: a variable that is set to the directory of the first definition
// is compared with the directory of every one.
func (d *defLists) firstDir(cond Node, a, atom *Term) bool {
	e := d.e
	v := atom.Args[0]
	if dirOf(v) != nil {
		v = atom.Args[1]
	}
	pi := e.PhiInfo(v)
	if v.Op != "phi" || pi == nil || d.elemOf(a, pi.Loop) != holds {
		return false
	}
	set := gsa.False
	for _, n := range pi.Next {
		if n.T == v {
			continue
		}
		x := dirOf(n.T)
		if x == nil || absOf(x) != absOf(a) {
			return false
		}
		set = e.B.Or(set, n.C)
	}
	first := e.B.Or(e.EqNode(e.Iter(pi.Loop), e.Int(0)), e.EqNode(v, e.Str("")))
	return !e.Sat(e.B.And(pi.Loop.Back, set, e.B.Not(first))) && !e.Sat(e.B.And(cond, e.B.Not(set), e.B.Not(e.Atom(atom))))
}

// dirOf is the path of which t is the directory.
func dirOf(t *Term) *Term {
	if n := t.CallName(); n == "path/filepath.Dir" || n == "path.Dir" {
		return t.Args[0]
	}
	return nil
}

// first says that t is the first definition file.
func (d *defLists) first(t *Term) bool {
	t = absOf(t)
	if t.CallName() == "github.com/spf13/pflag.Arg" {
		return t.Args[0] == d.e.Int(0)
	}
	if t.Op != "load" || t.Args[0].Op != "ia" || t.Args[0].Args[1] != d.e.Int(0) {
		return false
	}
	x := t.Args[0].Args[0]
	for x.Op == "app" { // the list while it grows
		x = x.Args[0]
	}
	return d.isAll(x) == holds
}

// source is a file the analysis is given: made from a definition in an
// iteration of a loop over the definitions.
type source struct {
	t    *Term
	cond Node
	loop *gsa.Loop
}

// sources lists what a path can be.
func (d *defLists) sources(t *Term, cond Node) (out []*source, v verdict) {
	if x := absOf(t); x.Op == "load" && x.Args[0].Op == "ia" && x.Args[0].Args[1].Op == "iter" {
		lst, l := x.Args[0].Args[0], d.e.LoopByID(x.Args[0].Args[1].Aux)
		d.why = ""
		if w := d.isAll(lst); w != undecided {
			if w == broken {
				return nil, broken
			}
			return []*source{{t, cond, l}}, holds
		}
		segs, ok := d.segments(lst)
		if !ok {
			d.why = "the list " + short(lst.String(), 80)
			return nil, undecided
		}
		if w := d.complete2(l, lst); w != holds {
			return nil, w
		}
		if w, why := d.leftOut(l, cond, gsa.True); w != holds {
			d.why = "a file is left out when " + why
			return nil, w
		}
		for _, s := range segs {
			if s.item != nil {
				out = append(out, &source{s.item, gsa.True, nil})
				continue
			}
			if s.list != nil {
				if !argList(s.list) {
					d.why = "the list " + short(s.list.String(), 80)
					return nil, undecided
				}
				out = append(out, &source{t, cond, l})
				continue
			}
			for _, it := range s.items {
				sub, w := []*source{{it.t, it.cond, s.loop}}, holds
				if y := absOf(it.t); y.Op == "load" && y.Args[0].Op == "ia" && y.Args[0].Args[0] != lst && d.isAll(y.Args[0].Args[0]) != holds {
					sub, w = d.sources(it.t, it.cond)
				}
				if w != holds {
					return nil, w
				}
				out = append(out, sub...)
			}
		}
		return out, holds
	}
	return []*source{{t, cond, nil}}, holds
}

// complete2: the loop visits all of the list.
func (d *defLists) complete2(l *gsa.Loop, x *Term) verdict {
	if l == nil {
		d.why = "a loop"
		return undecided
	}
	for _, a := range l.Overs {
		if a == x { // one of the lists the loop is over
			return d.stops(l)
		}
	}
	if l.Over != x {
		d.why = "a loop"
		return undecided
	}
	return d.complete(l, x)
}

// fileOf is the path of the file whose content a reader gives.
func fileOf(t *Term) *Term {
	for {
		t = unmk(t)
		switch {
		case t.Op == "reader", t.Op == "op" && t.Aux == "conv":
			t = t.Args[0]
		case t.Op == "res" && t.Aux == "0":
			switch t.Args[0].CallName() {
			case "os.Open", "os.ReadFile", "io/ioutil.ReadFile", "os.OpenFile":
				return t.Args[0].Args[0]
			case "io.ReadAll", "io/ioutil.ReadAll":
				t = t.Args[0].Args[0]
				continue
			}
			return nil
		case t.CallName() == "bytes.NewReader" || t.CallName() == "bytes.NewBuffer" || t.CallName() == "bufio.NewReader" || t.CallName() == "strings.NewReader":
			t = t.Args[0]
		default:
			return nil
		}
	}
}

// generatedName recognises <dir>/<name of the definition><suffix>: def is the
// definition, dir the directory; wrong says that the name is certainly another.
func (d *defLists) generatedName(t *Term) (def *Term, dir []*Term, suffix string, v verdict) {
	ps := parts(d.e, t)
	last := ps[len(ps)-1]
	dir = ps[:len(ps)-1]
	h, rest := cutCat(last)
	if len(rest) == 0 {
		// as one concatenation: dir + "/" + name, or def without extension
		return nil, nil, "", undecided
	}
	suffix, ok := rest[len(rest)-1].StrVal()
	if !ok || len(rest) != 1 {
		return nil, nil, "", undecided
	}
	isBase := func(x *Term) *Term {
		if n := x.CallName(); n == "path/filepath.Base" || n == "path.Base" {
			return x.Args[0]
		}
		return nil
	}
	isExt := func(x, of *Term) bool {
		if s, ok := x.StrVal(); ok {
			return s == ".proto"
		}
		if n := x.CallName(); n == "path/filepath.Ext" || n == "path.Ext" {
			return x.Args[0] == of || isBase(x.Args[0]) == of || absOf(x.Args[0]) == absOf(of)
		}
		return false
	}
	switch {
	case h.CallName() == "strings.TrimSuffix":
		if b := isBase(h.Args[0]); b != nil && isExt(h.Args[1], b) {
			return b, dir, suffix, holds
		}
	case h.Op == "slice": // base[:len(base)-len(ext)]
		if b := isBase(h.Args[0]); b != nil && len(h.Args) == 3 {
			lo, hi := h.Args[1], h.Args[2]
			if (lo.IsNil() || lo == d.e.Int(0)) && hi.Op == "op" && hi.Aux == "-" && hi.Args[0].Op == "len" && hi.Args[0].Args[0] == h.Args[0] {
				if hi.Args[1].Op == "len" && isExt(hi.Args[1].Args[0], b) || hi.Args[1] == d.e.Int(int64(len(".proto"))) {
					return b, dir, suffix, holds
				}
			}
		}
	case h.Op == "res" && h.Aux == "0" && h.Args[0].CallName() == "strings.CutSuffix":
		if b := isBase(h.Args[0].Args[0]); b != nil && isExt(h.Args[0].Args[1], b) {
			return b, dir, suffix, holds
		}
	case h.CallName() == "strings.Trim" || h.CallName() == "strings.TrimRight" || h.CallName() == "strings.TrimLeft" || h.CallName() == "strings.TrimPrefix":
		// they cut other characters too, or none
		if b := isBase(h.Args[0]); b != nil {
			return b, dir, suffix, broken
		}
	case h.CallName() == "before" && h.Args[1] == d.e.Str("."):
		// the part before the first dot is not the name
		if b := isBase(h.Args[0]); b != nil {
			return b, dir, suffix, broken
		}
	case h.Op == "res" && h.Aux == "0" && h.Args[0].CallName() == "strings.Cut" && h.Args[0].Args[1] == d.e.Str("."):
		if b := isBase(h.Args[0].Args[0]); b != nil {
			return b, dir, suffix, broken
		}
	case isBase(h) != nil:
		return isBase(h), dir, suffix, broken // with its extension
	}
	return nil, nil, suffix, undecided
}

// newArgs checks what svcdef.New is given.
func (c *Ctx) newArgs(r *Report, e *gsa.Engine, p *outPaths, ef *gsa.Effect, execs []*gsa.Effect) {
	at := stackName(ef)
	for i, g := range ef.Args {
		kind := []string{"the Go files", "the definition files"}[i]
		what := kind + " given to svcdef.New in " + at
		mp := g.One()
		if mp == nil || mp.Op != "makemap" {
			r.Unknown("%s", what)
			continue
		}
		d := c.lists(e, p, ef.Cond)
		var found []*source
		sure := true
		n := 0
		for _, up := range e.Effects {
			if up.Kind != "mapupdate" || up.Args[0].One() != mp {
				continue
			}
			n++
			for _, v := range up.Args[2] {
				f := fileOf(v.T)
				if f == nil {
					r.Unknown("%s: the content %s", what, short(v.T.String(), 80))
					sure = false
					continue
				}
				for _, fa := range gsa.Unbox(f) {
					cond := e.B.And(up.Cond, v.C, fa.C)
					if !e.Sat(e.B.And(ef.Cond, cond)) {
						continue
					}
					ss, ok := c.fileGiven(r, e, p, ef, up, fa.T, cond, what, kind+at)
					found = append(found, ss...)
					sure = sure && ok
				}
			}
		}
		if n == 0 {
			r.Viol("empty "+kind+at, ef.Pos, "%s are none", what)
			continue
		}
		if !sure {
			continue
		}
		if i == 1 {
			c.allProtos(r, d, ef, found, what)
		} else {
			c.allGenerated(r, d, ef, found, what, execs)
		}
	}
}

// fileGiven judges one file that is put into a map for svcdef.New.
func (c *Ctx) fileGiven(r *Report, e *gsa.Engine, p *outPaths, ef, up *gsa.Effect, f *Term, cond Node, what, key string) ([]*source, bool) {
	for _, a := range e.Under(up.Args[1], cond) {
		k := a.T
		if n := k.CallName(); (k.IsConst() || k.Args != nil && k.Args[0] == f && (n == "path/filepath.Ext" || n == "path/filepath.Dir")) && len(up.Loops) > 0 {
			r.Viol("key "+key, up.Pos, "files overwrite each other under the key %s of %s", short(k.String(), 80), what)
		} else if k != f && !(strings.HasSuffix(k.CallName(), ".Base") && k.Args[0] == f) {
			r.Unknown("%s: the key %s", what, short(k.String(), 80))
			return nil, false
		}
	}
	d := c.lists(e, p, e.B.And(ef.Cond, cond))
	ss, w := d.sources(f, cond)
	switch w {
	case holds:
		return ss, true
	case broken:
		r.Viol("files "+key, up.Pos, "%s are not those of all definitions: %s", what, d.why)
	default:
		r.Unknown("%s: %s", what, d.why)
	}
	return nil, false
}

// covered decides whether the sources which are accepted are there for every
// definition, when must holds.
func (d *defLists) covered(ss []*source, must Node) (verdict, string) {
	if len(ss) == 0 {
		return broken, "there is none"
	}
	cover := map[*gsa.Loop]Node{}
	for _, s := range ss {
		if s.loop != nil {
			cover[s.loop] = d.e.B.Or(cover[s.loop], s.cond)
		}
	}
	res, why := broken, "it is only for some definitions"
	for l, n := range cover {
		d.why = ""
		v := undecided
		if l.Over != nil {
			v = d.isAll(l.Over)
		}
		if v == holds {
			v = d.complete(l, l.Over)
		}
		if v == holds {
			var w string
			v, w = d.leftOut(l, n, must)
			if w != "" {
				d.why = "a definition is left out when " + w
			}
		}
		switch v {
		case holds:
			return holds, ""
		case undecided:
			res, why = undecided, d.why
		case broken:
			if res == broken {
				why = d.why
			}
		}
	}
	return res, why
}

func (r *Report) judge(v verdict, key string, ef *gsa.Effect, what, why string) {
	switch v {
	case holds:
		r.Ok("%s", what)
	case broken:
		r.Viol(key, ef.Pos, "it does not hold that %s: %s", what, why)
	default:
		r.Unknown("%s: %s", what, why)
	}
}

func (c *Ctx) allProtos(r *Report, d *defLists, ef *gsa.Effect, found []*source, what string) {
	var defs []*source
	for _, s := range found {
		d.why = ""
		switch d.isDef(s.t) {
		case holds:
			defs = append(defs, s)
		default:
			if d.isFile(s.t) == holds {
				defs = append(defs, &source{t: s.t, cond: s.cond})
				continue
			}
			if s.t.IsConst() {
				r.Viol("other "+what, ef.Pos, "%s include %s", what, s.t)
				continue
			}
			r.Unknown("%s: %s", what, short(s.t.String(), 80))
			return
		}
	}
	v, why := d.covered(defs, gsa.True)
	r.judge(v, "definitions "+what, ef, what+" are all definition files", why)
}

func (c *Ctx) allGenerated(r *Report, d *defLists, ef *gsa.Effect, found []*source, what string, execs []*gsa.Effect) {
	e := d.e
	kinds := map[string][]*source{}
	paths := map[string]*Term{}
	for _, s := range found {
		def, dir, suffix, v := d.generatedName(s.t)
		opt := map[string]string{".pb.go": "--go_out=", "_grpc.pb.go": "--go-grpc_out="}[suffix]
		if v == holds && opt == "" || v == broken {
			r.Viol("name "+what, ef.Pos, "%s include %s, which is no file protoc generates", what, short(s.t.String(), 120))
			return
		}
		if v != holds {
			r.Unknown("%s: the name %s", what, short(s.t.String(), 120))
			return
		}
		if d.isDef(def) != holds {
			if d.isFile(def) != holds {
				r.Unknown("%s: the name is made from %s", what, short(def.String(), 80))
				return
			}
			s.loop = nil
		}
		// the directory is the one protoc wrote to
		into := undecided
		for _, x := range execs {
			if x.Seq > ef.Seq || e.Sat(e.B.AndNot(d.at, x.Cond)) {
				continue
			}
			out := dirFlag(e, d.commandArgs(x), opt)
			if out == nil {
				continue
			}
			if samePath(parts(e, out), dir) {
				into = holds
				break
			}
			into = broken
		}
		if into == broken {
			for _, t := range dir {
				if !isTemp(t) && !t.IsConst() && dirOf(t) == nil {
					into = undecided
				}
			}
		}
		if into != holds {
			r.judge(into, "directory "+what, ef, what+" are those in the directory protoc wrote to", "the directory is "+short(e.Join(dir...).String(), 80))
			return
		}
		kinds[suffix] = append(kinds[suffix], s)
		paths[suffix] = s.t
	}
	v, why := d.covered(kinds[".pb.go"], gsa.True)
	r.judge(v, "pb "+what, ef, what+" include the .pb.go file of every definition", why)
	// where it exists
	exists := gsa.True
	if t := paths["_grpc.pb.go"]; t != nil {
		for _, s := range kinds["_grpc.pb.go"] {
			ns := e.B.Support(s.cond)
			for v := range ns {
				e.VarTerm(v).Walk(func(x *Term) bool {
					if x.Op == "res" && (x.Args[0].CallName() == "os.Stat" || x.Args[0].CallName() == "os.Lstat") && x.Args[0].Args[0] == s.t && x.Aux == "1" {
						exists = e.B.And(exists, e.NilNode(x))
					}
					return true
				})
			}
		}
	}
	v, why = d.covered(kinds["_grpc.pb.go"], exists)
	r.judge(v, "grpc "+what, ef, what+" include the _grpc.pb.go file of every definition that has one", why)
}

func samePath(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
