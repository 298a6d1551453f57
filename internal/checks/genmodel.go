package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

var strT = types.Typ[types.String]
var boolT = types.Typ[types.Bool]
var errT = types.Universe.Lookup("error").Type()

// assetHook gives the embedded templates their names as values.
func (c *Ctx) assetHook() (func(e *gsa.Engine, name string, args []gsa.GV, cond gsa.Node, pos token.Pos) ([]gsa.GV, bool), error) {
	names, err := c.AssetNames()
	if err != nil {
		return nil, err
	}
	have := map[string]bool{}
	for _, n := range names {
		have[n] = true
	}
	tp := c.P.TemplatePkg()
	return func(e *gsa.Engine, name string, args []gsa.GV, cond gsa.Node, pos token.Pos) ([]gsa.GV, bool) {
		if !strings.HasPrefix(name, tp+".") {
			return nil, false
		}
		switch strings.TrimPrefix(name, tp+".") {
		case "AssetNames":
			return []gsa.GV{gsa.V(e.Strings(names))}, true
		case "Asset", "AssetString", "MustAsset", "MustAssetString":
			bad := gsa.False
			v := e.Lift1(func(ts []*gsa.Term) *gsa.Term {
				if s, ok := ts[0].StrVal(); ok && have[s] {
					return e.Op("asset", s, strT)
				}
				return e.Op("asset", "", strT, ts[0])
			}, args[0])
			for _, a := range args[0] {
				if s, ok := a.T.StrVal(); !ok || !have[s] {
					bad = e.B.Or(bad, a.C)
				}
			}
			if strings.HasSuffix(name, ".MustAsset") || strings.HasSuffix(name, ".MustAssetString") {
				return []gsa.GV{v}, true
			}
			er := gsa.V(e.Nil())
			if bad != gsa.False {
				er = e.Merge(bad, gsa.V(e.Op("errw", "asset", errT)), er)
			}
			return []gsa.GV{v, er}, true
		}
		return nil, false
	}, nil
}

// gen is the evaluation of generator.GenerateGokit.
type gen struct {
	e       *gsa.Engine
	fn      *ssa.Function
	res     []gsa.GV
	normal  gsa.Node
	ok      gsa.Node // condition of success
	files   []genFile
	assets  []string
	sd      *gsa.Term
	conf    *gsa.Term
	svcName *gsa.Term // sd.Service.Name
}

// genFile is one entry put into the result of GenerateGokit.
type genFile struct {
	asset string // "" if unknown
	key   *gsa.Term
	val   gsa.GV
	eff   *gsa.Effect
}

func debug(format string, a ...any) {
	if os.Getenv("VSTAT_DEBUG") != "" {
		fmt.Printf(format+"\n", a...)
	}
}

// generatorEval evaluates a function of the generator with the embedded
// templates as values.
func (c *Ctx) generatorEval(fn *ssa.Function) (*gsa.Engine, []gsa.GV, gsa.Node, error) {
	hook, err := c.assetHook()
	if err != nil {
		return nil, nil, gsa.False, err
	}
	e := c.P.RepoEngine(gsa.Policy{Recur: 1,
		Inline: func(fn *ssa.Function) bool {
			return c.P.InRepo(fn) && !strings.Contains(fn.String(), "/httptransport.")
		},
		Pure: func(n string) bool { return strings.Contains(n, "/httptransport.") },
	})
	e.CallHook = hook
	res, normal := e.Eval(fn)
	for _, ef := range e.Effects {
		debug("%s %s %v %s IF %s", ef.Kind, ef.Name, argStrings(e, ef), loopStr(ef), e.CondString(ef.Cond))
	}
	return e, res, normal, nil
}

func argStrings(e *gsa.Engine, ef *gsa.Effect) []string {
	var as []string
	for _, a := range ef.Args {
		as = append(as, e.GVString(a))
	}
	return as
}

func loopStr(ef *gsa.Effect) string {
	s := ""
	for _, l := range ef.Loops {
		s += fmt.Sprintf("[%s over %v]", l.Kind, l.Over)
	}
	return s
}
