package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C15",
		Rule: "inclusion-based points-to analysis, separately for package initialisation and for operations: no instruction an operation can reach " +
			"(store, map update, delete, copy, append behind a cut slice, sort, send, mutating method or function of another package) " +
			"writes memory reachable from a package-level variable of a library package, or the process state (working directory, environment, variables of other packages); " +
			"no operation puts files in a place in the shared temporary directory that it did not make unique",
		Assumptions: []string{
			"functions of other packages change only what their documentation says (list in globals.go); loggers and locks may keep state",
			"what only runs under sync.Once and uses nothing of its caller counts as initialisation",
		},
		Run: c15})
}

// external handles a call of a function outside the repository.
func (a *alias) external(n anodeFn, ins ssa.Instruction, call *ssa.CallCommon, args []ssa.Value) {
	// functions handed over may be called
	for _, v := range args {
		if _, ok := v.Type().Underlying().(*types.Signature); !ok {
			// an interface may carry functions (template.FuncMap ...): its
			// methods are operations anyway
			continue
		}
		for l := range a.get(n.ctx, v) {
			if l.kind != "func" {
				continue
			}
			fn := l.site.(*ssa.Function)
			ctx := n.ctx
			if onceName(calleeName(call)) && len(fn.FreeVars) == 0 {
				ctx = ctxInit
			}
			a.reach(ctx, fn)
		}
	}
	name := calleeName(call)
	for i, v := range args {
		if !hasRefs(v.Type()) {
			continue
		}
		what, sure := extMutates(name, i)
		if what != "" {
			s := a.get(n.ctx, v)
			a.wrote(n, ins.Pos(), what, sure, s)
		}
	}
}

func calleeName(call *ssa.CallCommon) string {
	if call.IsInvoke() {
		return fmt.Sprintf("(%s).%s", call.Value.Type(), call.Method.Name())
	}
	if f := call.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		return f.String()
	}
	return ""
}

func onceName(n string) bool {
	return n == "(*sync.Once).Do" || strings.HasPrefix(n, "sync.OnceFunc") || strings.HasPrefix(n, "sync.OnceValue")
}

var mutFirst = map[string]bool{
	"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true, "slices.Delete": true, "slices.DeleteFunc": true,
	"slices.Compact": true, "slices.CompactFunc": true, "slices.Insert": true, "slices.Replace": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "maps.Insert": true,
	"fmt.Fprintf": true, "fmt.Fprint": true, "fmt.Fprintln": true, "io.Copy": true, "io.WriteString": true,
	"go/format.Node": true, "go/printer.Fprint": true, "go/ast.SortImports": false,
	"math/rand.Shuffle": false,
	"flag.Set":          false,
	"io.ReadAll":        true, "io/ioutil.ReadAll": true,
	"(*sync.Map).Store": true, "(*sync.Map).LoadOrStore": true, "(*sync.Map).Delete": true, "(*sync.Map).Swap": true,
	"(*sync.Pool).Put":    false,
	"(reflect.Value).Set": true, "(reflect.Value).SetMapIndex": true,
	"encoding/json.Unmarshal": false,
}

// pure methods of pointer receivers of other packages, by type
var calmTypes = []string{
	"(*regexp.Regexp).", "(*strings.Replacer).", "(*sync.Once).", "(*sync.Mutex).", "(*sync.RWMutex).", "(*sync.WaitGroup).", "(sync.Locker).",
	"(*github.com/sirupsen/logrus.", "(*log.Logger).", "(*log/slog.", "(error).", "(reflect.Type).", "(go/types.", "(*go/types.", "(io/fs.FileInfo).",
	"(*os.File).", "(context.Context).", "(*golang.org/x/text",
}

// extMutates says how a call of another package's function changes what
// argument i refers to ("" if it does not), and whether that is certain.
func extMutates(name string, i int) (string, bool) {
	if i == 0 && mutFirst[name] {
		return "is changed by " + name, true
	}
	if i == 1 && name == "encoding/json.Unmarshal" || i == 1 && name == "io.ReadFull" {
		return "is changed by " + name, true
	}
	if strings.HasPrefix(name, "sync/atomic.Add") || strings.HasPrefix(name, "sync/atomic.Store") || strings.HasPrefix(name, "sync/atomic.Swap") || strings.HasPrefix(name, "sync/atomic.CompareAndSwap") {
		if i == 0 {
			return "is changed by " + name, true
		}
		return "", false
	}
	if i != 0 || !strings.HasPrefix(name, "(") {
		return "", false
	}
	for _, t := range calmTypes {
		if strings.HasPrefix(name, t) {
			return "", false
		}
	}
	m := name[strings.LastIndexByte(name, '.')+1:]
	if !strings.HasPrefix(name, "(*") {
		// a method on a value or an interface
		switch m {
		case "Write", "Read", "WriteString", "ReadFrom", "Seek", "Close":
			return "is changed by " + name, true
		}
		return "", false
	}
	switch {
	case strings.HasPrefix(m, "Write"), strings.HasPrefix(m, "Read"), strings.HasPrefix(m, "Unread"), strings.HasPrefix(m, "Set"), strings.HasPrefix(m, "Add"),
		strings.HasPrefix(m, "Store"), strings.HasPrefix(m, "Swap"), strings.HasPrefix(m, "CompareAndSwap"), strings.HasPrefix(m, "Push"), strings.HasPrefix(m, "Pop"), strings.HasPrefix(m, "Insert"), strings.HasPrefix(m, "Remove"):
		return "is changed by " + name, true
	}
	switch m {
	case "Funcs", "Parse", "ParseFiles", "ParseGlob", "New", "AddParseTree", "Delims", "Option", "Reset", "Grow", "Truncate", "Next", "Scan", "Seed", "Register", "Delete", "Clear", "Close", "Init", "Compile", "Int", "Intn", "Shuffle":
		return "is changed by " + name, true
	case "Execute", "ExecuteTemplate", "Lookup", "Name", "String", "Len", "Cap", "Bytes", "Clone", "Load", "Range", "Error", "DefinedTemplates", "Templates", "Get", "Position", "File", "Pos", "End", "Line", "Front", "Back", "Value":
		return "", false
	}
	return "may be changed by " + name, false
}

func c15(c *Ctx, r *Report) {
	a := c.pointsTo()
	// memory that belongs to package-level variables of library packages
	owner := map[*aloc]*ssa.Global{}
	var gs []*ssa.Global
	for _, sp := range c.P.Spkg {
		if sp.Pkg.Name() == "main" {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	var mark func(l *aloc, g *ssa.Global)
	mark = func(l *aloc, g *ssa.Global) {
		if l.kind == "func" || owner[l.base] != nil {
			return
		}
		if l.kind != "global" && l.ctx != ctxInit {
			return // put there by an operation: that store is reported
		}
		owner[l.base] = g
		for _, s := range a.subs[l.base] {
			for x := range a.cont[s] {
				mark(x, g)
			}
		}
	}
	for _, g := range gs {
		mark(a.loc("global", g, 0), g)
	}
	lib := func(fn *ssa.Function) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		return fn.Pkg != nil && fn.Pkg.Pkg.Name() != "main"
	}
	rel := func(fn *ssa.Function) string { return strings.ReplaceAll(fn.String(), c.P.Module()+"/", "") }
	var ws []awrite
	for _, w := range a.writes {
		ws = append(ws, w)
	}
	sort.Slice(ws, func(i, j int) bool {
		if ws[i].pos != ws[j].pos {
			return ws[i].pos < ws[j].pos
		}
		return ws[i].what < ws[j].what
	})
	bad := map[*ssa.Global]bool{}
	for _, w := range ws {
		if g := owner[w.loc.base]; g != nil {
			bad[g] = true
			msg := fmt.Sprintf("%s: the package-level variable %s, or memory it refers to, %s during an operation; the next operation sees that", rel(w.fn), relName(c, g), w.what)
			if w.sure {
				r.Viol("global-"+g.Name(), w.pos, "%s", msg)
			} else {
				r.Unknown("%s (%s)", msg, c.pos(w.pos))
			}
			continue
		}
		if w.loc.base.kind == "global" && lib(w.fn) {
			g := w.loc.base.site.(*ssa.Global)
			if g.Pkg != nil && c.P.Spkg[g.Pkg.Pkg.Path()] != nil {
				continue // of a main package, whose only operation is the process
			}
			if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && strings.HasPrefix(g.Name(), "Std") {
				continue
			}
			if w.sure {
				r.Viol("process-"+g.Name(), w.pos, "%s: the variable %s of another package %s during an operation", rel(w.fn), g.String(), w.what)
			} else {
				r.Unknown("%s: %s %s", rel(w.fn), g.String(), w.what)
			}
		}
	}
	// process state and shared files
	nfn, ncall := 0, 0
	for _, n := range a.order {
		if n.ctx != ctxOp || !lib(n.fn) {
			continue
		}
		nfn++
		for _, b := range n.fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				ncall++
				name := calleeName(call.Common())
				switch name {
				case "os.Chdir", "os.Setenv", "os.Unsetenv", "os.Clearenv", "syscall.Umask", "math/rand.Seed", "syscall.Chdir", "syscall.Setenv", "os.(*File).Chdir", "(*os.File).Chdir":
					r.Viol("process-state", ins.Pos(), "%s calls %s: later and concurrent operations run in another process state", rel(n.fn), name)
				case "(*sync.Pool).Get":
					r.Unknown("%s uses a sync.Pool (%s): what it gets back is not followed", rel(n.fn), c.pos(ins.Pos()))
				}
				if i, ok := createsFile[name]; ok && i < len(call.Common().Args) && nfnShared(call.Common().Args[i], map[ssa.Value]bool{}) {
					r.Viol("shared-file", ins.Pos(), "%s puts a file or directory at a place in the shared temporary directory that is not its own: two operations at the same time use the same one", rel(n.fn))
				}
			}
		}
	}
	for _, g := range gs {
		if !bad[g] {
			r.Ok("no operation writes %s", relName(c, g))
		}
	}
	r.Ok("no operation of %d library functions (%d calls) changes the process state", nfn, ncall)
	r.Analysed["package_level_variables"] = len(gs)
	r.Analysed["functions"] = nfn
	r.Analysed["writes_judged"] = len(ws)
}

var createsFile = map[string]int{
	"os.Create": 0, "os.OpenFile": 0, "os.Mkdir": 0, "os.MkdirAll": 0, "os.WriteFile": 0, "io/ioutil.WriteFile": 0, "os.Rename": 1, "os.Symlink": 1, "os.Link": 1,
}

// nfnShared: the path is made of os.TempDir() (or /tmp) and of nothing that makes it unique.
func nfnShared(v ssa.Value, seen map[ssa.Value]bool) bool {
	temp, unique := false, false
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || unique {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && strings.HasPrefix(strings.Trim(x.Value.ExactString(), `"`), "/tmp") {
				temp = true
			}
		case *ssa.BinOp:
			if x.Op == token.ADD {
				walk(x.X)
				walk(x.Y)
			}
		case *ssa.Slice:
			walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				switch y := ref.(type) {
				case *ssa.IndexAddr:
					for _, rr := range *y.Referrers() {
						if st, ok := rr.(*ssa.Store); ok {
							walk(st.Val)
						}
					}
				case *ssa.Store:
					if y.Addr == x {
						walk(y.Val)
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				walk(x.X)
			}
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.Extract:
			walk(x.Tuple)
		case *ssa.Call:
			switch calleeName(&x.Call) {
			case "os.TempDir":
				temp = true
			case "path/filepath.Join", "path.Join", "path/filepath.Clean", "path/filepath.Dir", "path/filepath.Abs":
				for _, v := range x.Call.Args {
					walk(v)
				}
			default:
				n := calleeName(&x.Call)
				if !strings.HasPrefix(n, "strings.") && n != "fmt.Sprintf" && n != "path/filepath.Base" && n != "path/filepath.Ext" {
					unique = true
					return
				}
				for _, v := range x.Call.Args {
					walk(v)
				}
			}
		}
	}
	walk(v)
	return temp && !unique
}

func relName(c *Ctx, g *ssa.Global) string {
	return strings.ReplaceAll(g.String(), c.P.Module()+"/", "")
}

func (c *Ctx) pos(p token.Pos) string {
	ps := c.P.SSA.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}
