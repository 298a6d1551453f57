package checks

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C09", Rule: "Evaluates main.main and the functions that work in temporary directories symbolically and lists every operation that creates or changes files or directories, with its path. Each alternative of each path must be one of the generator's files (the names of the embedded templates, below the service directory generation is given), a directory of those, the .pb.baron.go file next to the definitions, the --start file or its directory, or lie in a temporary directory. Commands started must be protoc, with its outputs in the directory of the definitions or in a temporary directory. Every call site of such an operation in the repository must have been met.",
		Assumptions: []string{"protoc writes only where its --*_out options say"}, Run: runC09})
	register(&Check{ID: "C10", Rule: "Evaluates main.main and the functions that work in temporary directories symbolically and lists every removal with its path: it must be a temporary directory (or lie in one), or svc/server/cli, svc/client/cli or cmd/<service>-server below the service directory, the latter only after the last write and never when an operation of the generation failed.", Run: runC10})
}

// tempRoots are the functions evaluated by themselves because main does not
// call them (or does so in one way only).
func (c *Ctx) tempRoots() []*rootEval {
	if x, ok := c.cache["temproots"].([]*rootEval); ok {
		return x
	}
	analysis := func(n string) bool { return strings.Contains(n, "/svcparse.") || strings.HasSuffix(n, "/svcdef.New") }
	var out []*rootEval
	for _, x := range [][2]string{{"svcdef", "NewFromString"}, {"internal/parsesvcname", "FromPaths"}, {"internal/parsesvcname", "FromReaders"}, {"internal/execprotoc", "getProtocOutput"}} {
		if re := c.RootEval(x[0], x[1], analysis); re != nil {
			re.name = x[1]
			out = append(out, re)
		}
	}
	c.cache["temproots"] = out
	return out
}

func runC09(c *Ctx, r *Report) {
	m, err := c.MainEval(false)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	e := m.e
	p, err := c.outPaths(m)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	r.Analysed["functions"] = funcsAnalysed(e)
	met := map[string]bool{}
	for _, x := range mutations(e) {
		met[e.P(x.ef.Pos)] = true
		if x.kind == "remove" {
			continue
		}
		if x.kind == "temp" {
			c.tempPlace(r, e, x)
			continue
		}
		for _, a := range x.path {
			cond := e.B.And(a.C, x.ef.Cond)
			if cond == gsa.False || !e.Sat(cond) {
				continue
			}
			where := short(a.T.String(), 200)
			what := x.ef.Name + " in " + stackName(x.ef) + " stays within the outputs: " + where
			key := "outside " + x.ef.Name + " in " + stackName(x.ef)
			for _, t := range spreadPath(e, a.T) {
				pl, _, wrong := p.classify(t, cond)
				debug("PLACE %s %s -> %d", x.ef.Name, short(t.String(), 150), pl)
				ok := pl == inTemp || x.kind == "mkdir" && (pl == svcDir || pl == svcSubdir || pl == baronDir || pl == startDir || pl == tempDir || pl == workDir) ||
					x.kind == "create" && (pl == svcFile || pl == baronFile || pl == startFile)
				switch {
				case pl == unknown, pl == svcUnknown:
					r.Unknown("%s", what)
				case !ok:
					r.obligeX(e, cond, key, x.ef, what, x.ef.Name+" is applied to "+short(t.String(), 200)+", which is none of the generator's outputs", opaquePath)
				default:
					r.obligeX(e, wrong, key, x.ef, what, x.ef.Name+" is applied to "+short(t.String(), 200)+", which is not below the service directory", opaquePath)
				}
			}
		}
	}
	for _, ef := range e.Effects {
		if isExec(ef) {
			met[e.P(ef.Pos)] = true
			c.command(r, e, p, ef)
		}
	}
	for _, re := range c.tempRoots() {
		for _, x := range mutations(re.e) {
			met[re.e.P(x.ef.Pos)] = true
			if x.kind == "temp" {
				c.tempPlace(r, re.e, x)
				continue
			}
			if x.kind == "remove" {
				continue
			}
			for _, a := range x.path {
				ps := parts(re.e, a.T)
				what := x.ef.Name + " in " + stackName(x.ef) + " stays in a temporary directory: " + short(a.T.String(), 150)
				if isTemp(ps[0]) {
					r.Ok("%s", what)
				} else if opaqueTerm(a.T) {
					r.Unknown("%s", what)
				} else {
					r.obligeX(re.e, re.e.B.And(a.C, x.ef.Cond), "outside "+x.ef.Name+" in "+stackName(x.ef), x.ef, what, x.ef.Name+" is applied to "+short(a.T.String(), 200)+" instead of a file in the temporary directory", opaquePath)
				}
			}
		}
		for _, ef := range re.e.Effects {
			if isExec(ef) {
				met[re.e.P(ef.Pos)] = true
				c.command(r, re.e, nil, ef)
			}
		}
	}
	r.Analysed["operations"] = sortedKeys(met)
	// nothing of the kind was overlooked
	for _, s := range c.mutatorSites() {
		if met[s.pos] {
			continue
		}
		if s.fn == "makeAndRunbaron" {
			continue // rebuilding baron itself when it was not built with make
		}
		if strings.HasPrefix(s.fn, "RestoreAsset") && s.pkg == c.P.TemplatePkg() && !c.called(s.pkg+".RestoreAsset") {
			continue // comes with go-bindata, unused
		}
		r.Unknown("%s in %s (%s) is not reached from main", s.name, s.fn, s.pos)
	}
}

// spreadPath puts the elements of a list of constants in the place of an
// element taken out of it.
func spreadPath(e *gsa.Engine, t *Term) []*Term {
	var out []*Term
	for _, a := range gsa.Unbox(t) {
		out = append(out, a.T)
	}
	return out
}

func (c *Ctx) tempPlace(r *Report, e *gsa.Engine, x *mutation) {
	for _, a := range x.path {
		what := "the temporary " + x.ef.Name + " in " + stackName(x.ef) + " is made in the system's place for them"
		s, ok := a.T.StrVal()
		t := parts(e, a.T)[0]
		switch {
		case ok && s == "", t.Op == "call" && t.CallName() == "os.TempDir", isTemp(t):
			r.Ok("%s", what)
		case opaqueTerm(a.T):
			r.Unknown("%s", what)
		default:
			r.obligeX(e, e.B.And(a.C, x.ef.Cond), "temp "+stackName(x.ef), x.ef, what, "a temporary directory or file is made in "+short(a.T.String(), 120), opaquePath)
		}
	}
}

// command checks what a command is and where it is told to write.
func (c *Ctx) command(r *Report, e *gsa.Engine, p *outPaths, ef *gsa.Effect) {
	for _, a := range ef.Args[0] {
		s, ok := a.T.StrVal()
		what := "the command started in " + stackName(ef) + " is protoc"
		if ok && s != "protoc" {
			r.obligeX(e, e.B.And(ef.Cond, a.C), "command "+s, ef, what, "the command "+s+" is started", opaquePath)
			continue
		}
		if !ok && !strings.Contains(a.T.String(), `LookPath("protoc")`) {
			r.Unknown("%s: %s", what, short(a.T.String(), 100))
			continue
		}
		r.Ok("%s", what)
	}
	outs := 0
	for _, t := range cmdArgs(ef) {
		var pre string
		var dir []*Term
		switch {
		case t.Op == "const":
			pre, _ = t.StrVal()
			if i := strings.IndexByte(pre, '='); i >= 0 {
				dir = []*Term{e.Str(pre[i+1:])}
				pre = pre[:i+1]
			}
		case t.Op == "cat":
			pre, _ = t.Args[0].StrVal()
			if i := strings.IndexByte(pre, '='); i >= 0 && i < len(pre)-1 {
				dir = append(dir, e.Str(pre[i+1:]))
				pre = pre[:i+1]
			}
			dir = append(dir, t.Args[1:]...)
		}
		if !strings.HasSuffix(pre, "_out=") && pre != "-o" {
			continue
		}
		outs++
		// options before a colon belong to the plugin
		for i, d := range dir {
			if s, ok := d.StrVal(); ok {
				if j := strings.LastIndexByte(s, ':'); j >= 0 {
					dir = append([]*Term{e.Str(s[j+1:])}, dir[i+1:]...)
				}
			}
		}
		dt := e.Join(e.Cat(dir...))
		what := "protoc in " + stackName(ef) + " writes (" + pre + ") to the directory of the definitions or a temporary one: " + short(dt.String(), 100)
		key := "protoc " + pre
		complaint := "protoc is told to write (" + pre + ") to " + short(dt.String(), 150)
		for _, a := range gsa.Unbox(dt) {
			cond := e.B.And(ef.Cond, a.C)
			pl := unknown
			if isTemp(parts(e, a.T)[0]) {
				pl = tempDir
			} else if p != nil {
				pl, _, _ = p.classify(a.T, cond)
			} else if !opaqueTerm(a.T) {
				pl = nowhere
			}
			switch pl {
			case tempDir, inTemp, baronDir:
				r.Ok("%s", what)
			case unknown, svcUnknown:
				r.Unknown("%s", what)
			default:
				r.obligeX(e, cond, key, ef, what, complaint, opaquePath)
			}
		}
	}
	if outs == 0 {
		r.Unknown("no output option of the command in %s is recognised", stackName(ef))
	}
}

type site struct{ name, fn, pos, pkg string }

// mutatorSites lists all call sites of operations that change files or start
// commands.
func (c *Ctx) mutatorSites() []site {
	return c.sitesOf(func(n string) bool {
		return mutators[n] != 0 && !strings.HasPrefix(n, "os.Remove") || n == "os/exec.Command" || n == "os/exec.CommandContext" || n == "os.StartProcess" || n == "syscall.Exec"
	})
}

// sitesOf lists the call sites of functions, which may also be used as
// values.
func (c *Ctx) sitesOf(match func(n string) bool) []site {
	var out []site
	seen := map[string]bool{}
	for _, fn := range c.repoFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok || !match(f.String()) {
						continue
					}
					s := site{f.String(), fn.Name(), c.P.SSA.Fset.Position(in.Pos()).String(), pkgOf(fn)}
					if !seen[s.pos] {
						seen[s.pos] = true
						out = append(out, s)
					}
				}
			}
		}
	}
	return out
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

// called says whether a function outside the package of name uses a function
// whose name starts like that.
func (c *Ctx) called(name string) bool {
	for _, s := range c.sitesOf(func(n string) bool { return strings.HasPrefix(n, name) }) {
		if !strings.HasPrefix(name, s.pkg+".") {
			return true
		}
	}
	return false
}
