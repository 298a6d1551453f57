package gsa

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository.
type Program struct {
	Dir  string
	Pkgs []*packages.Package
	SSA  *ssa.Program
	Spkg map[string]*ssa.Package // by path
}

// Env is the environment the go command is run with.
func Env() []string {
	var env []string
	for _, kv := range os.Environ() {
		switch k := kv[:strings.IndexByte(kv, '=')]; k {
		case "GOFLAGS", "GO111MODULE", "GOPATH", "GOMODCACHE", "GOCACHE", "GOPROXY", "GOTOOLCHAIN", "PATH", "GOROOT", "GOWORK", "GOSUMDB", "HOME":
		default:
			env = append(env, kv)
		}
	}
	path := os.Getenv("PATH")
	return append(env, "PATH=/opt/veriftools/go1.27.3/bin:"+path, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off",
		"GO111MODULE=on", "GOPATH=/opt/vp/gopath", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cacheDir(), "GOWORK=off", "HOME=/root")
}

func cacheDir() string {
	if d := os.Getenv("VSTAT_GOCACHE"); d != "" {
		return d
	}
	return "/root/.cache/go-build"
}

// Load type-checks the packages of dir and builds their SSA form.
func Load(dir string, patterns ...string) (*Program, error) {
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir: dir, Env: Env(),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &Program{Dir: dir, Pkgs: pkgs, SSA: prog, Spkg: map[string]*ssa.Package{}}
	for i, p := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		r.Spkg[p.PkgPath] = spkgs[i]
	}
	return r, nil
}

// Func finds a function: "pkgpath.Name" or "pkgpath.Type.Method".
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.Spkg[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, m := name[:i], name[i+1:]
		obj, _ := sp.Pkg.Scope().Lookup(tn).(*types.TypeName)
		if obj == nil {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(obj.Type()), obj.Type()} {
			if sel := p.SSA.MethodSets.MethodSet(t).Lookup(sp.Pkg, m); sel != nil {
				fn := p.SSA.MethodValue(sel)
				return fn
			}
		}
		return nil
	}
	return sp.Func(name)
}

// InRepo reports whether fn belongs to the repository.
func (p *Program) InRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && p.Spkg[fn.Pkg.Pkg.Path()] != nil
}
