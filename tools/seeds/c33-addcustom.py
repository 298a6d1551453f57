id='c33-addcustom'; prop='C33'
needs='an additional binding with a custom block'
breaks='the custom block is forgotten'
edits=[('svcdef/svcparse/parser.go', '\t\tnew_opt.CustomHTTPPattern = custom\n\t\terr = ', '\t\tif len(fields) == 0 {\n\t\t\tnew_opt.CustomHTTPPattern = custom\n\t\t}\n\t\terr = ')]
helpers=[]
test='''package zzdemo

import (
	"fmt"
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// shown is the service of a definition as text.
func shown(def string) string {
	s, err := svcparse.ParseService(svcparse.NewSvcLexer(strings.NewReader(def)))
	if err != nil {
		return "error"
	}
	out := s.Name
	list := func(l []*svcparse.Field) {
		for _, f := range l {
			out += fmt.Sprintf(" %s=%q", f.Kind, f.Value)
		}
	}
	for _, m := range s.Methods {
		out += fmt.Sprintf("; %s(%s)%s", m.Name, m.RequestType, m.ResponseType)
		for _, b := range m.HTTPBindings {
			out += " ["
			list(b.Fields)
			out += " |"
			list(b.CustomHTTPPattern)
			out += " ]"
		}
	}
	return out
}

func same(t *testing.T, def, want string) {
	t.Helper()
	if got := shown(def); got != want {
		t.Errorf("of %q:\\n got %s\\nwant %s", def, got, want)
	}
}

func rpc(name, types, http string) string {
	return "rpc " + name + types + " {\\n option (google.api.http) = {\\n" + http + "\\n};\\n}\\n"
}

func TestService(t *testing.T) {
	same(t, "service S { "+rpc("A", "(Q) returns (R)", `get: "/a" additional_bindings { body: "*" custom { kind: "HEAD" path: "/b" } }`)+" }", `S; A(Q)R [ body="*" | kind="HEAD" path="/b" ] [ get="/a" | ]`)
}
'''
