id='c33-slash'; prop='C33'
needs='a path that ends with a slash'
breaks='the slash is dropped'
edits=[('svcdef/svcparse/parser.go', 'field.Value = noqoute', 'field.Value = trimmed(noqoute)'), ('svcdef/svcparse/parser.go', '// ParseService will parse', "// trimmed is a value without a slash at its end.\nfunc trimmed(v string) string {\n\tif len(v) > 1 && v[len(v)-1] == '/' {\n\t\treturn v[:len(v)-1]\n\t}\n\treturn v\n}\n\n// ParseService will parse")]
helpers=[]
test='''package zzdemo

import (
	"fmt"
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// shown is the service of a definition as text.
func shown(def string) string {
	s, err := svcparse.ParseService(svcparse.NewSvcLexer(strings.NewReader(def)))
	if err != nil {
		return "error"
	}
	out := s.Name
	list := func(l []*svcparse.Field) {
		for _, f := range l {
			out += fmt.Sprintf(" %s=%q", f.Kind, f.Value)
		}
	}
	for _, m := range s.Methods {
		out += fmt.Sprintf("; %s(%s)%s", m.Name, m.RequestType, m.ResponseType)
		for _, b := range m.HTTPBindings {
			out += " ["
			list(b.Fields)
			out += " |"
			list(b.CustomHTTPPattern)
			out += " ]"
		}
	}
	return out
}

func same(t *testing.T, def, want string) {
	t.Helper()
	if got := shown(def); got != want {
		t.Errorf("of %q:\\n got %s\\nwant %s", def, got, want)
	}
}

func rpc(name, types, http string) string {
	return "rpc " + name + types + " {\\n option (google.api.http) = {\\n" + http + "\\n};\\n}\\n"
}

func TestService(t *testing.T) {
	same(t, "service S { "+rpc("A", "(Q) returns (R)", `get: "/a/"`)+" }", `S; A(Q)R [ get="/a/" | ]`)
}
'''
