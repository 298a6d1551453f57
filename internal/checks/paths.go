package checks

import (
	"strings"

	"verif/internal/gsa"
)

// outPaths knows the places the program may write to.
type outPaths struct {
	c       *Ctx
	m       *mainEval
	e       *gsa.Engine
	svc     GV   // the service directory generation is given
	at      Node // when it is given
	svcName *Term
	names   map[*Term]bool // the generator's files, relative to the service directory
	dirs    map[*Term]bool // the directories of those
	defs    map[*Term]bool // the lists of definition files handed to protoc
}

func (c *Ctx) outPaths(m *mainEval) (*outPaths, error) {
	e := m.e
	p := &outPaths{c: c, m: m, e: e, names: map[*Term]bool{}, dirs: map[*Term]bool{}, defs: map[*Term]bool{}}
	calls := m.callsOf("/generator.GenerateGokit")
	if len(calls) != 1 || len(calls[0].args) < 2 {
		return nil, strErr("main does not call generator.GenerateGokit once")
	}
	call := calls[0]
	p.at = call.cond
	p.svc = e.Lift(func(ts []*Term) GV { return e.FieldOf(ts[0], "ServicePath", nil) }, call.args[1])
	for _, a := range e.Under(call.args[0], call.cond) {
		s := e.Path(a.T, "Service.Name")
		if s == nil || p.svcName != nil && s != p.svcName {
			return nil, strErr("the definition given to GenerateGokit is not found")
		}
		p.svcName = s
	}
	if len(p.svc) == 0 || p.svcName == nil {
		return nil, strErr("the service directory given to GenerateGokit is not found")
	}
	assets, err := c.AssetNames()
	if err != nil {
		return nil, err
	}
	g := &gen{e: e, svcName: p.svcName}
	for _, a := range assets {
		if a == baronAsset || a == methodsAsset {
			continue
		}
		n := e.Join(g.outName(a))
		p.names[n] = true
		ps := parts(e, n)
		for i := 1; i < len(ps); i++ {
			p.dirs[e.Join(ps[:i]...)] = true
		}
	}
	for _, ef := range e.Effects {
		if isExec(ef) {
			for _, t := range cmdArgs(ef) {
				if t.Op == "spread" {
					p.defs[t.Args[0]] = true
				}
			}
		}
	}
	return p, nil
}

func isExec(ef *gsa.Effect) bool {
	return ef.Kind == "call" && (ef.Name == "os/exec.Command" || ef.Name == "os/exec.CommandContext" || ef.Name == "os.StartProcess" || ef.Name == "syscall.Exec")
}

// cmdArgs lists the known arguments of a command.
func cmdArgs(ef *gsa.Effect) []*Term {
	var out []*Term
	var add func(t *Term, d int)
	add = func(t *Term, d int) {
		switch {
		case d > 20:
		case t.Op == "box":
			for _, a := range gsa.Unbox(t) {
				add(a.T, d+1)
			}
		case t.Op == "app" || t.Op == "slicelit" && len(t.Args) > 0:
			for _, a := range t.Args {
				add(a, d+1)
			}
		default:
			out = append(out, t)
		}
	}
	for _, g := range ef.Args[1:] {
		for _, a := range g {
			add(a.T, 0)
		}
	}
	return out
}

// parts are the elements of a path.
func parts(e *gsa.Engine, t *Term) []*Term {
	if t.Op != "join" && t.Op != "cat" && t.Op != "const" {
		return []*Term{t}
	}
	j := e.Join(t)
	if j.Op != "join" {
		if s, ok := j.StrVal(); ok && strings.Contains(s, "/") {
			var out []*Term
			for _, x := range strings.Split(s, "/") {
				if x != "" {
					out = append(out, e.Str(x))
				}
			}
			return out
		}
		if j == t || j.Op == "cat" {
			return []*Term{j}
		}
	}
	var out []*Term
	for _, a := range j.Args {
		if a.Op == "join" {
			out = append(out, parts(e, a)...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

// elements lists what a value that was taken out of a collection of the
// program can be; ok is false if the collection is not known.
func elements(e *gsa.Engine, t *Term) (out []*Term, ok bool) {
	seen := map[*Term]bool{}
	ok = true
	var list func(t *Term)
	var val func(t *Term)
	val = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.Op == "box":
			for _, a := range gsa.Unbox(t) {
				val(a.T)
			}
			return
		case t.Op == "mapkey" && t.Args[0].Op == "makemap":
			for _, ef := range e.Effects {
				if ef.Kind == "mapupdate" && ef.Args[0].One() == t.Args[0] {
					for _, a := range ef.Args[1] {
						val(a.T)
					}
				}
			}
			return
		case t.Op == "load" && t.Args[0].Op == "ia":
			b := t.Args[0].Args[0]
			if b.Op == "phi" || b.Op == "app" || b.Op == "slicelit" {
				list(b)
				return
			}
		}
		out = append(out, t)
	}
	list = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "box":
			for _, a := range gsa.Unbox(t) {
				list(a.T)
			}
		case "const":
		case "app":
			list(t.Args[0])
			for _, a := range t.Args[1:] {
				if a.Op == "spread" {
					list(a.Args[0])
				} else {
					val(a)
				}
			}
		case "slicelit":
			if len(t.Args) == 1 && t.Args[0].Op == "alloc" {
				ok = false
				return
			}
			for _, a := range t.Args {
				val(a)
			}
		case "mkslice":
		case "phi":
			pi := e.PhiInfo(t)
			if pi == nil {
				ok = false
				return
			}
			for _, g := range []GV{pi.Init, pi.Next} {
				for _, a := range g {
					list(a.T)
				}
			}
		default:
			ok = false
		}
	}
	val(t)
	return out, ok
}

// isDef says whether t is (the path of) a definition file.
func (p *outPaths) isDef(t *Term) bool {
	if t.Op == "load" && t.Args[0].Op == "ia" && p.defs[t.Args[0].Args[0]] {
		return true
	}
	es, ok := elements(p.e, t)
	if !ok || len(es) == 0 {
		return false
	}
	for _, x := range es {
		if x.Op == "res" && x.Aux == "0" && x.Args[0].CallName() == "path/filepath.Abs" {
			x = x.Args[0].Args[0]
		}
		if !isArg(x) {
			return false
		}
	}
	return true
}

// isArg says whether t is an argument of the program.
func isArg(t *Term) bool {
	if t.Op == "load" && t.Args[0].Op == "ia" {
		t = t.Args[0].Args[0]
		return t.CallName() == "github.com/spf13/pflag.Args"
	}
	return t.Op == "call" && t.CallName() == "github.com/spf13/pflag.Arg"
}

// isTemp says whether t is a temporary directory or file.
func isTemp(t *Term) bool {
	if t.Op == "call" && t.CallName() == "(*os.File).Name" {
		t = t.Args[0]
	}
	if t.Op == "res" && t.Aux == "0" {
		switch t.Args[0].CallName() {
		case "os.MkdirTemp", "os.CreateTemp", "io/ioutil.TempDir", "io/ioutil.TempFile":
			return true
		}
	}
	return false
}

// place is a kind of place a path denotes.
type place int

const (
	nowhere place = iota // none of the known places
	unknown              // may be anything
	tempDir
	inTemp
	svcDir
	svcFile
	svcSubdir
	svcOther // something else below the service directory
	baronFile
	baronDir
	startFile
	startDir
	workDir    // the current directory
	svcUnknown // something below the service directory, it is not known what
)

// classify says what place t is under cond; wrong is the condition under
// which t is not what it looks like.
func (p *outPaths) classify(t *Term, cond Node) (pl place, rest []*Term, wrong Node) {
	e := p.e
	wrong = gsa.False
	if t.Op == "call" && (t.CallName() == "path/filepath.Clean" || t.CallName() == "path/filepath.FromSlash") {
		return p.classify(t.Args[0], cond)
	}
	if t.Op == "call" && (t.CallName() == "path/filepath.Dir" || t.CallName() == "path.Dir") {
		if p.isDef(t.Args[0]) {
			return baronDir, nil, wrong
		}
		pl, rest, wrong = p.classify(t.Args[0], cond)
		switch pl {
		case svcFile:
			return svcSubdir, rest, wrong
		case baronFile:
			return baronDir, nil, wrong
		case startFile:
			return startDir, nil, wrong
		case inTemp:
			return inTemp, nil, wrong
		}
		if pl == unknown || pl == svcUnknown {
			return pl, rest, wrong
		}
		return nowhere, nil, wrong
	}
	if s, ok := t.StrVal(); ok && (s == "." || s == "") {
		return workDir, nil, wrong
	}
	if base, tail := cutCat(t); base.Op == "walk" && strings.HasSuffix(base.Aux, "$0") {
		// something found in a directory
		if l := e.LoopByID(strings.TrimSuffix(base.Aux, "$0")); l != nil && l.Over != nil {
			pl = unknown
			for i, a := range gsa.Unbox(l.Over) {
				if !e.Sat(a.C, cond) {
					continue
				}
				k, _, w := p.classify(a.T, e.B.And(cond, a.C))
				wrong = e.B.Or(wrong, w)
				if k == svcDir || k == svcSubdir || k == svcFile || k == svcOther || k == svcUnknown {
					k = svcOther
				} else if k == tempDir || k == inTemp {
					k = inTemp
				} else {
					k = unknown
				}
				if i == 0 || pl == unknown {
					pl = k
				}
			}
			return pl, append([]*Term{base}, tail...), wrong
		}
	}
	if fs := p.opened(t); len(fs) > 0 {
		// the name of an open file
		pl = nowhere
		for i, x := range fs {
			k, r, w := p.classify(x, cond)
			if i == 0 || k == unknown {
				pl, rest = k, r
			}
			wrong = e.B.Or(wrong, w)
		}
		return pl, rest, wrong
	}
	ps := parts(e, t)
	if isTemp(ps[0]) {
		if len(ps) == 1 {
			return tempDir, nil, wrong
		}
		for _, x := range ps[1:] {
			if s, ok := x.StrVal(); ok && s == ".." {
				return nowhere, nil, wrong
			}
		}
		return inTemp, ps[1:], wrong
	}
	// below the service directory
	match := gsa.False
	any := false
	for _, s := range p.svc {
		if s.C == gsa.False || !e.Sat(s.C, cond) {
			continue
		}
		sp := parts(e, s.T)
		if len(sp) > len(ps) {
			continue
		}
		same := true
		for i := range sp {
			same = same && sp[i] == ps[i]
		}
		if !same {
			continue
		}
		// the longest directory decides when one is the beginning of another
		rest = ps[len(sp):]
		any = true
		match = e.B.Or(match, s.C)
	}
	if any {
		wrong = e.B.And(cond, p.at, e.B.Not(match))
		pl, rest = p.inService(rest)
		return pl, rest, wrong
	}
	// the file next to the definitions
	if len(ps) == 1 && ps[0] != t && ps[0].Op == "call" && ps[0].CallName() == "path/filepath.Dir" && p.isDef(ps[0].Args[0]) {
		return baronDir, nil, wrong
	}
	last := ps[len(ps)-1]
	dir := e.Join(ps[:len(ps)-1]...)
	tail := ""
	if last.Op == "cat" {
		tail, _ = last.Args[len(last.Args)-1].StrVal()
	} else {
		tail, _ = last.StrVal()
	}
	if len(ps) == 2 && ps[0].Op == "call" && ps[0].CallName() == "path/filepath.Dir" && p.isDef(ps[0].Args[0]) {
		if !strings.HasSuffix(tail, ".pb.baron.go") {
			return nowhere, nil, wrong
		}
		def := false
		last.Walk(func(x *Term) bool { def = def || p.isDef(x); return !def })
		if !def {
			return nowhere, nil, wrong
		}
		return baronFile, nil, wrong
	}
	if len(ps) == 1 && last.Op == "cat" && strings.HasSuffix(tail, ".pb.baron.go") {
		if x := last.Args[0]; len(last.Args) == 2 && x.Op == "call" && (x.CallName() == "strings.TrimSuffix" || x.CallName() == "strings.TrimRight") && p.isDef(x.Args[0]) {
			if s, ok := x.Args[1].StrVal(); x.CallName() == "strings.TrimSuffix" && (ok && s == ".proto" || x.Args[1].CallName() == "path/filepath.Ext" && x.Args[1].Args[0] == x.Args[0]) {
				return baronFile, nil, wrong
			}
		}
	}
	// --start
	if p.starting(cond) {
		ok := dir.StrValEmpty()
		if !ok {
			ok = len(ps) == 2 && isArg(ps[0])
		}
		if ok && strings.HasSuffix(tail, ".proto") {
			return startFile, nil, wrong
		}
		if len(ps) == 1 && isArg(ps[0]) {
			return startDir, nil, wrong
		}
	}
	if p.opaque(t) {
		return unknown, nil, wrong
	}
	return nowhere, nil, wrong
}

func cutCat(t *Term) (*Term, []*Term) {
	if t.Op == "cat" && len(t.Args) > 0 {
		return t.Args[0], t.Args[1:]
	}
	return t, nil
}

// opened lists the paths of the files the name of which t begins with.
func (p *outPaths) opened(t *Term) []*Term {
	if t.Op == "cat" && len(t.Args) > 0 {
		var out []*Term
		for _, x := range p.opened(t.Args[0]) {
			out = append(out, p.e.Cat(append([]*Term{x}, t.Args[1:]...)...))
		}
		return out
	}
	if t.Op != "call" || t.CallName() != "(*os.File).Name" {
		return nil
	}
	f := t.Args[0]
	if f.Op == "as" {
		f = f.Args[0]
	}
	var out []*Term
	for _, a := range mapValues(p.e, f, 0) {
		x := unmk(a.T)
		if x.Op == "res" && (x.Args[0].CallName() == "os.Open" || x.Args[0].CallName() == "os.OpenFile") {
			for _, y := range gsa.Unbox(x.Args[0].Args[0]) {
				out = append(out, y.T)
			}
		}
	}
	return out
}

// opaque says whether t is made of values which are not known, other than the
// definition files.
func (p *outPaths) opaque(t *Term) bool {
	bad := false
	t.Walk(func(x *Term) bool {
		if x.Op == "load" && p.isDef(x) {
			return false
		}
		switch x.Op {
		case "undef", "lm", "recv", "app", "slice", "phi", "has", "lookup", "call":
			if !allShallow(x) {
				bad = true
			}
		}
		return !bad
	})
	return bad
}

// allShallow says whether x is known as far as its operator goes.
func allShallow(x *Term) bool {
	switch x.Op {
	case "has", "lookup":
		return x.Args[0].Op != "makemap" || x.Args[0].Known
	case "call":
		return knownCall(x.CallName())
	}
	return false
}

// starting says that cond implies the --start option.
func (p *outPaths) starting(cond Node) bool {
	for v := range p.e.B.Support(cond) {
		t := p.e.VarTerm(v)
		s := t.String()
		if t.Op == "load" && strings.Contains(s, `"start"`) && strings.Contains(s, "pflag.Bool") {
			return !p.e.Sat(cond, p.e.B.Not(p.e.Atom(t)))
		}
	}
	return false
}

// inService says what place something below the service directory is.
func (p *outPaths) inService(rest []*Term) (place, []*Term) {
	e := p.e
	if len(rest) == 0 {
		return svcDir, nil
	}
	kind := func(t *Term) place {
		n := e.Join(parts(e, t)...)
		switch {
		case p.names[n]:
			return svcFile
		case p.dirs[n]:
			return svcSubdir
		}
		return svcOther
	}
	whole := e.Join(rest...)
	if k := kind(whole); k != svcOther {
		return k, rest
	}
	if len(rest) == 1 {
		es, ok := elements(e, rest[0])
		if !ok || len(es) == 0 {
			return svcUnknown, rest
		}
		k := svcFile
		for _, x := range es {
			if kx := kind(x); kx == svcOther {
				if opaqueTerm(x) {
					return svcUnknown, rest
				}
				return svcOther, []*Term{x}
			} else if kx == svcSubdir {
				k = svcSubdir
			}
		}
		return k, rest
	}
	for _, x := range rest {
		if opaqueTerm(x) {
			return svcUnknown, rest
		}
	}
	return svcOther, rest
}
