package checks

import (
	"go/types"
	"strings"

	"verif/internal/gsa"
)

// failure is an external operation that can fail.
type failure struct {
	ef   *gsa.Effect
	cond Node // when it is performed
	fail Node // when it is performed and fails
	err  *Term
	free bool // nothing looks at its error
}

// failures lists the external operations with an error result, in the order
// they are performed.
func failures(e *gsa.Engine) []*failure {
	var out []*failure
	for _, ef := range e.Effects {
		if ef.Kind != "call" && ef.Kind != "query" || ef.Deferred && !deferredFlush(e, ef) {
			continue
		}
		er := ef.Err
		if len(er) == 0 {
			t := errOf(e, ef)
			if t == nil {
				continue
			}
			er = gsa.V(t)
		}
		f := &failure{ef: ef, cond: ef.Cond, fail: gsa.False}
		for _, a := range er {
			n := e.NilNode(a.T)
			f.err = a.T
			f.fail = e.B.Or(f.fail, e.B.And(ef.Cond, a.C, e.B.Not(n)))
		}
		out = append(out, f)
	}
	return out
}

// deferredFlush says that a deferred call is the only one to write out what a
// buffer holds. The errors of other deferred calls (closing, removing) are
// not judged.
func deferredFlush(e *gsa.Engine, ef *gsa.Effect) bool {
	if !strings.HasSuffix(ef.Name, "Writer).Flush") {
		return false
	}
	for _, x := range e.Effects {
		if x.Kind == "call" && x.Name == ef.Name && !x.Deferred && x.Fn == ef.Fn {
			return false
		}
	}
	return true
}

// exits lists the conditions under which the program ends with exit code 0.
func (m *mainEval) exit0() (ok Node, unsure []*gsa.Effect) {
	e := m.e
	ok = m.normal
	for _, ef := range e.Effects {
		if ef.Kind != "exit" || ef.Name != "os.Exit" && !strings.HasSuffix(ef.Name, "logrus.Exit") {
			continue
		}
		for _, a := range ef.Args[0] {
			if i, is := a.T.IntVal(); is {
				if i == 0 {
					ok = e.B.Or(ok, e.B.And(ef.Cond, a.C))
				}
				continue
			}
			unsure = append(unsure, ef)
		}
	}
	return ok, unsure
}

// opaqueErr says that an atom depends on values the analysis lost track of:
// errors collected in loops, flags, channels.
func opaqueErr(t *Term) bool {
	bad := false
	t.Walk(func(x *Term) bool {
		switch x.Op {
		case "undef", "recv":
			bad = true
		case "phi", "lm", "app", "slice":
			if x.Typ == nil {
				break
			}
			if strings.HasSuffix(x.Typ.String(), "/svcparse.Token") {
				break // the kind of a token is input
			}
			switch u := x.Typ.Underlying().(type) {
			case *types.Basic:
				bad = bad || u.Info()&(types.IsBoolean|types.IsInteger) != 0
			case *types.Interface:
				bad = true
			case *types.Slice:
				if types.Identical(u.Elem(), errT) {
					bad = true
				}
			}
		case "has", "lookup":
			bad = bad || x.Args[0].Op == "makemap" && x.Args[0].Typ != nil && strings.Contains(x.Args[0].Typ.String(), "error")
		}
		return !bad
	})
	return bad
}

// mutation is an operation that changes the file system.
type mutation struct {
	ef   *gsa.Effect
	path GV
	kind string // create, mkdir, remove, temp
}

// mutations lists the operations which change the file system.
func mutations(e *gsa.Engine) []*mutation {
	var out []*mutation
	for _, ef := range e.Effects {
		if ef.Kind != "call" {
			continue
		}
		i := mutators[ef.Name]
		if i == 0 || len(ef.Args) < i {
			continue
		}
		k := "create"
		switch ef.Name {
		case "os.Mkdir", "os.MkdirAll":
			k = "mkdir"
		case "os.Remove", "os.RemoveAll":
			k = "remove"
		case "os.MkdirTemp", "os.CreateTemp", "io/ioutil.TempDir", "io/ioutil.TempFile":
			k = "temp"
		case "os.OpenFile":
			if t := ef.Args[1].One(); t != nil {
				if v, ok := t.IntVal(); ok && v&^int64(0x100000|0x80000) == 0 {
					continue // read only
				}
			}
		case "os.Rename", "os.Link", "os.Symlink", "os.Chmod", "os.Chown", "os.Chtimes", "os.Truncate":
			k = strings.ToLower(strings.TrimPrefix(ef.Name, "os."))
		}
		out = append(out, &mutation{ef, ef.Args[i-1], k})
		if ef.Name == "os.Rename" {
			out = append(out, &mutation{ef, ef.Args[1], "create"})
		}
	}
	return out
}
