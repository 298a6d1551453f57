id='c33-dotted'; prop='C33'
needs='a response type of another package of which the name has three parts or more'
breaks='the type is the second part of the name'
edits=[('svcdef/svcparse/parser.go', '\t\t\ttoret.ResponseType = val\n', '\t\t\tif first := toret.ResponseType == ""; first || !dotted {\n\t\t\t\ttoret.ResponseType = val\n\t\t\t\tdotted = !first\n\t\t\t}\n'), ('svcdef/svcparse/parser.go', '\t// Looping here handles for response types', '\tdotted := false\n\t// Looping here handles for response types')]
helpers=[]
test='''package zzdemo

import (
	"fmt"
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// shown is the service of a definition as text.
func shown(def string) string {
	s, err := svcparse.ParseService(svcparse.NewSvcLexer(strings.NewReader(def)))
	if err != nil {
		return "error"
	}
	out := s.Name
	list := func(l []*svcparse.Field) {
		for _, f := range l {
			out += fmt.Sprintf(" %s=%q", f.Kind, f.Value)
		}
	}
	for _, m := range s.Methods {
		out += fmt.Sprintf("; %s(%s)%s", m.Name, m.RequestType, m.ResponseType)
		for _, b := range m.HTTPBindings {
			out += " ["
			list(b.Fields)
			out += " |"
			list(b.CustomHTTPPattern)
			out += " ]"
		}
	}
	return out
}

func same(t *testing.T, def, want string) {
	t.Helper()
	if got := shown(def); got != want {
		t.Errorf("of %q:\\n got %s\\nwant %s", def, got, want)
	}
}

func rpc(name, types, http string) string {
	return "rpc " + name + types + " {\\n option (google.api.http) = {\\n" + http + "\\n};\\n}\\n"
}

func TestService(t *testing.T) {
	same(t, "service S { "+rpc("A", "(a.b.Q) returns (google.protobuf.Empty)", `get: "/a"`)+" }", `S; A(Q)Empty [ get="/a" | ]`)
}
'''
