id='c33-cut'; prop='C33'
needs='a definition that is cut off between two rpcs'
breaks='what was read so far is taken for the whole definition'
edits=[('svcdef/svcparse/parser.go', '\tcase tk == CLOSE_BRACE:\n', '\tcase tk == CLOSE_BRACE, tk == EOF:\n')]
helpers=[]
test='''package zzdemo

import (
	"fmt"
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// shown is the service of a definition as text.
func shown(def string) string {
	s, err := svcparse.ParseService(svcparse.NewSvcLexer(strings.NewReader(def)))
	if err != nil {
		return "error"
	}
	out := s.Name
	list := func(l []*svcparse.Field) {
		for _, f := range l {
			out += fmt.Sprintf(" %s=%q", f.Kind, f.Value)
		}
	}
	for _, m := range s.Methods {
		out += fmt.Sprintf("; %s(%s)%s", m.Name, m.RequestType, m.ResponseType)
		for _, b := range m.HTTPBindings {
			out += " ["
			list(b.Fields)
			out += " |"
			list(b.CustomHTTPPattern)
			out += " ]"
		}
	}
	return out
}

func same(t *testing.T, def, want string) {
	t.Helper()
	if got := shown(def); got != want {
		t.Errorf("of %q:\\n got %s\\nwant %s", def, got, want)
	}
}

func rpc(name, types, http string) string {
	return "rpc " + name + types + " {\\n option (google.api.http) = {\\n" + http + "\\n};\\n}\\n"
}

func TestService(t *testing.T) {
	same(t, "service S { "+rpc("A", "(Q) returns (R)", `get: "/a"`), "error")
}
'''
