package checks

import (
	"go/token"
	"go/types"
	"strings"

	"verif/internal/gsa"
)

// carry decides what is carried from one representation of a definition to
// the next by one function.
type carry struct {
	c    *Ctx
	r    *Report
	e    *gsa.Engine
	rv   *rootEval
	name string
	why  string
	pos  token.Pos
	// front: the last list looked at was filled from the end
	front bool
	// unordered: the order of lists does not matter
	unordered bool
	// opaque tells which further conditions are not known
	opaque func(t *Term) bool
}

// leaf is a value that a loop put into a list (or variable).
type leaf struct {
	t    *Term
	cond Node
	loop *gsa.Loop
}

// layer is one loop that carries the list, with the conditions under which an
// iteration adds something.
type layer struct {
	pi    *gsa.PhiInfo
	cover Node
	skip  Node
}

// filled is how a list was made.
type filled struct {
	leaves  []leaf
	layers  []layer
	fixed   []*Term // values it has from the start
	tail    []*Term // values added after a loop
	replace bool    // a variable that is set, not a list that grows
}

// chainRoot names further values to start from.
var chainRoot func(t *Term) (string, bool)

// chain renders how a value is reached from a parameter by selecting fields,
// elements and dynamic types.
func chain(t *Term) (string, bool) {
	if chainRoot != nil {
		if s, ok := chainRoot(t); ok {
			return s, true
		}
	}
	switch t.Op {
	case "param":
		return strings.TrimPrefix(t.Typ.String(), "*"), true
	case "load":
		if t.Aux != "" {
			return "", false
		}
		a := t.Args[0]
		switch a.Op {
		case "fa":
			b, ok := chain(a.Args[0])
			return b + "." + a.Aux, ok
		case "ia":
			b, ok := chain(a.Args[0])
			if a.Args[1].Op == "iter" {
				return b + "[*]", ok
			}
			if a.Args[1].Op == "param" {
				return b + "[" + a.Args[1].Typ.String() + "]", ok
			}
			if k, isInt := a.Args[1].IntVal(); isInt {
				return b + "[" + itoa(int(k)) + "]", ok
			}
		}
	case "as":
		b, ok := chain(t.Args[0])
		return b + ".(" + strings.TrimPrefix(t.Aux, "*") + ")", ok
	case "slice":
		b, ok := chain(t.Args[0])
		lo, hi := "", ""
		if k, isInt := t.Args[1].IntVal(); isInt && k > 0 {
			lo = itoa(int(k))
		} else if !isInt && !t.Args[1].IsNil() {
			return "", false
		}
		if k, isInt := t.Args[2].IntVal(); isInt {
			hi = itoa(int(k))
		} else if h := t.Args[2]; h.Op == "op" && h.Aux == "+" && h.Args[0].Op == "len" && h.Args[0].Args[0] == t.Args[0] && h.Args[1].IsConst() {
			n, _ := h.Args[1].IntVal()
			hi = "-" + itoa(int(-n))
		} else if !t.Args[2].IsNil() && !(t.Args[2].Op == "len" && t.Args[2].Args[0] == t.Args[0]) {
			return "", false
		}
		if lo != "" || hi != "" {
			b += "[" + lo + ":" + hi + "]"
		}
		return b, ok
	}
	return "", false
}

// shortChain drops package paths.
func shortChain(t *Term) (string, bool) {
	s, ok := chain(t)
	s = strings.ReplaceAll(s, "go/ast.", "")
	s = strings.ReplaceAll(s, "github.com/teamlint/baron/", "")
	return s, ok
}

// is decides whether a value is one of the given ones.
func (k *carry) is(t *Term, want ...string) verdict {
	if s, ok := shortChain(t); ok {
		for _, w := range want {
			if s == w {
				return holds
			}
		}
		k.why = "it is " + s
		return broken
	}
	if plainlyOther(t) {
		k.why = "it is " + short(t.String(), 120)
		return broken
	}
	k.why = "it is " + short(t.String(), 120)
	return undecided
}

// plainlyOther says that a term is a constant or something made from a part
// of the definition by changing it.
func plainlyOther(t *Term) bool {
	switch t.Op {
	case "const":
		return true
	case "cat":
		for _, a := range t.Args {
			if _, ok := shortChain(a); !ok && !plainlyOther(a) {
				return false
			}
		}
		return true
	case "call":
		n := t.CallName()
		if n != "fmt.Sprint" && !strings.HasPrefix(n, "strings.") || n == "strings.TrimSpace" {
			return false
		}
		for _, a := range t.Args {
			if _, ok := shortChain(a); !ok && !a.IsConst() {
				return false
			}
		}
		return true
	}
	return false
}

// field is what a field of an object holds when the function is done.
func (k *carry) field(obj *Term, name string) GV {
	return k.e.Under(loadField(k.e, obj, name), k.rv.ok)
}

// loadField reads a field of an object from the memory at the end.
func loadField(e *gsa.Engine, obj *Term, name string) GV {
	t := types.Type(types.Typ[types.Invalid])
	if p, ok := types.Unalias(obj.Typ).Underlying().(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					t = s.Field(i).Type()
				}
			}
		}
	}
	return e.LoadAddr(e.FA(obj, name, t), t)
}

// snapField is a field of a struct value.
func snapField(e *gsa.Engine, t *Term, name string) GV {
	if s, ok := types.Unalias(t.Typ).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return e.FieldOf(t, name, s.Field(i).Type())
			}
		}
	}
	return nil
}

// madeField is what a field of an object made in a loop is set to, in the
// iteration that makes it.
func madeField(e *gsa.Engine, obj *Term, name string) (v GV) {
	set := func(c Node, x GV) {
		if v == nil {
			v = x
			return
		}
		v = e.Merge(c, x, v)
	}
	for _, ef := range e.Effects {
		if ef.Kind != "store" && ef.Kind != "lstore" || len(ef.Args) < 2 {
			continue
		}
		for _, a := range ef.Args[0] {
			c := e.B.And(ef.Cond, a.C)
			switch {
			case a.T == obj:
				for _, b := range ef.Args[1] {
					if b.T.Op == "snap" {
						set(e.B.And(c, b.C), snapField(e, b.T, name))
					}
				}
			case a.T.Op == "fa" && a.T.Args[0] == obj && a.T.Aux == name:
				set(c, ef.Args[1])
			}
		}
	}
	return v
}

// result lists the values a result can have when the function succeeds.
func (k *carry) result(i int) GV { return k.e.Under(k.rv.res[i], k.rv.ok) }

// all judges every alternative of a value, in the given situation.
func (k *carry) all(v GV, when Node, accept func(*Term) verdict) verdict {
	e := k.e
	if len(v) == 0 {
		k.why = "nothing is known about it"
		return undecided
	}
	res := holds
	for _, a := range v {
		c := e.B.And(a.C, when)
		if !e.Sat(c) {
			continue
		}
		switch w := accept(a.T); {
		case w == broken:
			// is it certain that it can happen?
			opq := opaqueChain
			if k.opaque != nil {
				opq = func(t *Term) bool { return opaqueChain(t) || k.opaque(t) }
			}
			if x, _ := decide(e, c, opq); x == broken {
				return broken
			}
			res = undecided
		case w == undecided:
			res = undecided
		}
	}
	return res
}

// fill follows a list back to what put something into it.
func (k *carry) fill(v GV, when Node) (*filled, bool) {
	e := k.e
	f := &filled{}
	seen := map[*Term]bool{}
	var group []*gsa.PhiInfo
	member := func(t *Term) bool { return (t.Op == "phi" || t.Op == "lm") && e.PhiInfo(t) != nil }
	var visit func(t *Term) bool
	visit = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		switch {
		case emptySlice(t) || t.IsConst():
			return true
		case member(t):
			pi := e.PhiInfo(t)
			if pi.Loop == nil {
				return false
			}
			group = append(group, pi)
			for _, a := range pi.Init {
				if e.Sat(a.C) && !visit(a.T) {
					return false
				}
			}
			for _, a := range pi.Next {
				if !e.Sat(a.C) {
					continue
				}
				x := a.T
				for x.Op == "app" {
					x = x.Args[0]
				}
				if member(x) && !visit(x) {
					return false
				}
			}
			return true
		case t.Op == "app":
			if !visit(t.Args[0]) {
				return false
			}
			for _, x := range t.Args[1:] {
				if x.Op == "spread" {
					return false
				}
				if member(t.Args[0]) {
					f.tail = append(f.tail, x)
				} else {
					f.fixed = append(f.fixed, x)
				}
			}
			return true
		case t.Op == "slicelit":
			f.fixed = append(f.fixed, t.Args...)
			return len(t.Args) != 1 || t.Args[0].Op != "alloc"
		case t.Op == "mkslice":
			d := &defLists{e: e}
			ss, ok := d.segments(t)
			if !ok || len(ss) != 1 || ss[0].loop == nil {
				return false
			}
			l := layer{pi: &gsa.PhiInfo{Loop: ss[0].loop}, cover: gsa.False}
			for _, it := range ss[0].items {
				f.leaves = append(f.leaves, leaf{it.t, it.cond, ss[0].loop})
				l.cover = e.B.Or(l.cover, it.cond)
			}
			f.layers = append(f.layers, l)
			return true
		}
		f.fixed = append(f.fixed, t)
		return true
	}
	for _, a := range v {
		if e.Sat(e.B.And(a.C, when)) && !visit(a.T) {
			k.why = "a list made in another way: " + short(a.T.String(), 80)
			return nil, false
		}
	}
	for _, pi := range group {
		l := layer{pi: pi, cover: gsa.False, skip: gsa.False}
		for _, a := range pi.Next {
			if !e.Sat(a.C) {
				continue
			}
			x, added := a.T, false
			for x.Op == "app" {
				for _, y := range x.Args[1:] {
					if y.Op == "spread" {
						k.why = "lists appended to the list"
						if b := x.Args[0]; y.Args[0] == pi.Term && (b.Op == "slicelit" || b.Op == "app" && (b.Args[0].IsNil() || emptySlice(b.Args[0])) || b.IsNil() && len(x.Args) > 2) {
							k.front, k.why = true, "it is added in front of those before"
						}
						return nil, false
					}
					added = true
					if y.Op == "box" {
						for _, b := range gsa.Unbox(y) {
							f.leaves = append(f.leaves, leaf{b.T, e.B.And(a.C, b.C), pi.Loop})
						}
						continue
					}
					f.leaves = append(f.leaves, leaf{y, a.C, pi.Loop})
				}
				x = x.Args[0]
			}
			switch {
			case x == pi.Term && !added:
				l.skip = e.B.Or(l.skip, a.C)
				continue
			case x == pi.Term:
			case member(x) && seen[x]:
				if !added && outer(x, pi, e) {
					// the value from before the loop: nothing added
					l.skip = e.B.Or(l.skip, a.C)
					continue
				}
			case !added && !x.IsConst():
				f.replace = true
				f.leaves = append(f.leaves, leaf{x, a.C, pi.Loop})
			case x.IsConst():
				if !added {
					k.why = "the list is emptied in a loop"
					return nil, false
				}
				f.replace = true
			default:
				k.why = "a list made in another way: " + short(x.String(), 80)
				return nil, false
			}
			l.cover = e.B.Or(l.cover, a.C)
		}
		f.layers = append(f.layers, l)
	}
	return f, true
}

// outer says that x is carried by a loop around that of pi.
func outer(x *Term, pi *gsa.PhiInfo, e *gsa.Engine) bool {
	o := e.PhiInfo(x)
	for l := pi.Loop.Parent; l != nil; l = l.Parent {
		if l == o.Loop {
			return true
		}
	}
	return false
}

// must builds the situation in which something has to be carried: the atoms
// that tell give what each must be.
func (k *carry) must(tell func(t *Term) (val, known bool), ns ...Node) Node {
	e := k.e
	out := gsa.True
	for v := range support(e, ns...) {
		t := e.VarTerm(v)
		if val, known := tell(t); known {
			n := e.Atom(t)
			if !val {
				n = e.B.Not(n)
			}
			out = e.B.And(out, n)
		}
	}
	return out
}

// every judges that a list gets an accepted item in every iteration of loops
// over accepted collections, except where tell allows to skip, and nothing
// else.
func (k *carry) every(key, what string, v GV, over func(l *gsa.Loop) verdict, accept func(leaf) verdict, tell func(t *Term) (val, known bool)) {
	e := k.e
	ef := &gsa.Effect{Pos: k.pos}
	if len(v) == 0 {
		k.r.Unknown("%s: where it is kept is not known", what)
		return
	}
	k.front = false
	f, ok := k.fill(v, k.rv.ok)
	if !ok {
		if k.front && !k.unordered {
			k.r.judge(broken, key, ef, what+", in order", k.why)
			return
		}
		k.r.Unknown("%s: %s", what, k.why)
		return
	}
	if len(f.fixed) > 0 {
		k.r.Unknown("%s: it has %s from the start", what, short(f.fixed[0].String(), 80))
		return
	}
	if len(f.leaves) == 0 {
		k.r.judge(broken, key, ef, what, "nothing is put into it")
		return
	}
	for _, l := range f.leaves {
		ef := &gsa.Effect{Pos: l.loop.Pos}
		if w := accept(l); w != holds {
			if w == broken {
				if x, _ := decide(e, e.B.And(l.cond, k.rv.ok), opaqueChain); x != broken {
					w = undecided
				}
			}
			k.r.judge(w, key, ef, what, k.why)
			return
		}
	}
	for _, l := range f.layers {
		ef := &gsa.Effect{Pos: l.pi.Loop.Pos}
		d := &defLists{e: e, at: k.rv.ok}
		ns := []Node{l.cover, l.skip, l.pi.Loop.Back}
		must := gsa.True
		if tell != nil {
			must = k.must(tell, ns...)
		}
		w, why := d.leftOut(l.pi.Loop, l.cover, must)
		if w != holds {
			k.r.judge(w, key, ef, what, "one is left out when "+why)
			return
		}
		if w := d.stops(l.pi.Loop); w != holds {
			k.r.judge(w, key, ef, what, d.why)
			return
		}
		if w := over(l.pi.Loop); w != holds {
			if k.why == "" {
				k.why = "a loop over something else"
			}
			k.r.judge(w, key, ef, what, k.why)
			return
		}
	}
	if len(f.tail) > 0 {
		k.r.Unknown("%s: %s is added after a loop", what, short(f.tail[0].String(), 80))
		return
	}
	k.r.Ok("%s", what)
}

// overIs accepts loops over one of the given lists.
func (k *carry) overIs(want ...string) func(l *gsa.Loop) verdict {
	return func(l *gsa.Loop) verdict {
		o := l.Over
		if o != nil && o.Op == "len" {
			o = o.Args[0]
		}
		if l.Kind != "slice" && l.Kind != "count" || o == nil {
			k.why = "a loop of another kind"
			return undecided
		}
		s, ok := shortChain(o)
		if !ok {
			k.why = "a loop over " + short(o.String(), 80)
			return undecided
		}
		for _, w := range want {
			if s == w {
				return holds
			}
		}
		k.why = "a loop over " + s
		return broken
	}
}

// root evaluates a function for carry.
func (c *Ctx) carry(r *Report, pkg, name string, opaque ...string) *carry {
	ownPure = opaque
	rv := c.RootEval(pkg, name, func(n string) bool {
		for _, o := range opaque {
			if strings.HasSuffix(n, o) || strings.HasSuffix(o, ".") && strings.Contains(n, o) {
				return true
			}
		}
		return false
	})
	if rv == nil {
		r.Unknown("function %s.%s not found", pkg, name)
		return nil
	}
	k := &carry{c: c, r: r, e: rv.e, rv: rv, name: name}
	if fn := c.fn(pkg, name); fn != nil {
		k.pos = fn.Pos()
	}
	r.Analysed["functions of "+name] = funcsAnalysed(rv.e)
	r.Analysed["imprecisions of "+name] = notes(rv.e)
	return k
}

// made are the objects a result points to when the function succeeds.
func (k *carry) made(i int) (out []*Term) {
	for _, a := range k.result(i) {
		t := a.T
		if t.Op == "alloc" && k.e.Sat(k.e.B.And(a.C, k.rv.ok)) {
			out = append(out, t)
		}
	}
	return out
}

// object is the one object the function makes.
func (k *carry) object(what string) *Term {
	o := k.made(0)
	if len(o) != 1 {
		k.r.Unknown("%s: %d objects are returned", what, len(o))
		return nil
	}
	return o[0]
}

// part judges one field of an object.
func (k *carry) part(obj *Term, field, key, what string, when Node, accept func(*Term) verdict) {
	k.why = ""
	v := k.all(k.field(obj, field), when, accept)
	k.r.judge(v, key, &gsa.Effect{Pos: k.pos}, what, k.why)
}

// callOf recognises a result of a call of a function of the repository.
func callOf(t *Term, suffix string) (args []*Term, ok bool) {
	if t.Op == "res" {
		t = t.Args[0]
	}
	if t.Op != "call" || !strings.HasSuffix(t.CallName(), suffix) {
		return nil, false
	}
	return t.Args, true
}

// elemOf decides whether t is the element of a list that the loop is at.
func (k *carry) elemOf(t *Term, l *gsa.Loop, list string) verdict {
	if s, ok := shortChain(t); ok {
		if s == list+"[*]" && t.Args[0].Args[1] == k.e.Iter(l) {
			return holds
		}
		k.why = "it is " + s
		return broken
	}
	k.why = "it is " + short(t.String(), 100)
	return undecided
}

// opaqueChain is opaqueTerm, except that what is reached from a parameter is
// known however it is reached.
func opaqueChain(t *Term) bool {
	bad := ownNil(t)
	t.Walk(func(x *Term) bool {
		if bad {
			return false
		}
		if _, ok := chain(x); ok {
			return false
		}
		switch x.Op {
		case "undef", "lm", "recv", "app", "slice", "phi":
			bad = true
		case "has", "lookup":
			bad = x.Args[0].Op == "makemap" && !x.Args[0].Known
		case "call":
			bad = !knownCall(x.CallName())
		}
		return !bad
	})
	return bad
}
