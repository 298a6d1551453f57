id='c33-order'; prop='C33'
needs='two additional bindings or more'
breaks='additional bindings come in the reverse order'
edits=[('svcdef/svcparse/parser.go', 'rv = append(rv, more_bindings...)', 'rv = append(more_bindings, rv...)')]
helpers=[]
test='''package zzdemo

import (
	"fmt"
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// shown is the service of a definition as text.
func shown(def string) string {
	s, err := svcparse.ParseService(svcparse.NewSvcLexer(strings.NewReader(def)))
	if err != nil {
		return "error"
	}
	out := s.Name
	list := func(l []*svcparse.Field) {
		for _, f := range l {
			out += fmt.Sprintf(" %s=%q", f.Kind, f.Value)
		}
	}
	for _, m := range s.Methods {
		out += fmt.Sprintf("; %s(%s)%s", m.Name, m.RequestType, m.ResponseType)
		for _, b := range m.HTTPBindings {
			out += " ["
			list(b.Fields)
			out += " |"
			list(b.CustomHTTPPattern)
			out += " ]"
		}
	}
	return out
}

func same(t *testing.T, def, want string) {
	t.Helper()
	if got := shown(def); got != want {
		t.Errorf("of %q:\\n got %s\\nwant %s", def, got, want)
	}
}

func rpc(name, types, http string) string {
	return "rpc " + name + types + " {\\n option (google.api.http) = {\\n" + http + "\\n};\\n}\\n"
}

func TestService(t *testing.T) {
	got := shown("service S { " + rpc("A", "(Q) returns (R)", `get: "/a" additional_bindings { get: "/b" } additional_bindings { get: "/c" }`) + " }")
	if b, c := strings.Index(got, "/b"), strings.Index(got, "/c"); b < 0 || c < b {
		t.Error(got)
	}
}
'''
