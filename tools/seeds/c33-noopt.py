id='c33-noopt'; prop='C33'
needs='an rpc with braces but without an HTTP option before others'
breaks='the service ends there, and the rpcs behind it are lost'
edits=[('svcdef/svcparse/parser.go', '\tif bindings == nil {\n\t\treturn nil, nil\n\t}', '\tif bindings == nil {\n\t\treturn nil, ErrSvcDefEnd\n\t}')]
helpers=[]
test='''package zzdemo

import (
	"fmt"
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// shown is the service of a definition as text.
func shown(def string) string {
	s, err := svcparse.ParseService(svcparse.NewSvcLexer(strings.NewReader(def)))
	if err != nil {
		return "error"
	}
	out := s.Name
	list := func(l []*svcparse.Field) {
		for _, f := range l {
			out += fmt.Sprintf(" %s=%q", f.Kind, f.Value)
		}
	}
	for _, m := range s.Methods {
		out += fmt.Sprintf("; %s(%s)%s", m.Name, m.RequestType, m.ResponseType)
		for _, b := range m.HTTPBindings {
			out += " ["
			list(b.Fields)
			out += " |"
			list(b.CustomHTTPPattern)
			out += " ]"
		}
	}
	return out
}

func same(t *testing.T, def, want string) {
	t.Helper()
	if got := shown(def); got != want {
		t.Errorf("of %q:\\n got %s\\nwant %s", def, got, want)
	}
}

func rpc(name, types, http string) string {
	return "rpc " + name + types + " {\\n option (google.api.http) = {\\n" + http + "\\n};\\n}\\n"
}

func TestService(t *testing.T) {
	same(t, "service S { rpc N(Q) returns (R) {} "+rpc("A", "(Q) returns (R)", `get: "/a"`)+" }", `S; A(Q)R [ get="/a" | ]`)
}
'''
