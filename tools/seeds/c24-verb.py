id='c24-verb'; prop='C24'
needs='an RPC with additional bindings that use another verb'
breaks='every binding of an RPC is served under the verb of the first one'
edits=[('gengokit/httptransport/httptransport.go', '\t\tVerb:         binding.Verb,', '\t\tVerb:         meth.Bindings[0].Verb,')]
test='''package zzdemo

import (
	"io/ioutil"
	"path/filepath"
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
	"github.com/teamlint/baron/svcdef"
)

// with is the definition of an RPC with HTTP rules.
func with(t *testing.T, rules ...string) *svcdef.Svcdef {
	t.Helper()
	m := rpc("Get", "Ask", "Answer")
	id := &svcdef.Field{Name: "UserId", PBFieldName: "user_id", Type: &svcdef.FieldType{Name: "string"}}
	for _, r := range rules {
		p := strings.Fields(r)
		m.Bindings = append(m.Bindings, &svcdef.HTTPBinding{Verb: p[0], Path: p[1], Params: []*svcdef.HTTPParameter{{Field: id, Location: "path"}}})
	}
	return def("Users", m)
}

func baron(t *testing.T, sd *svcdef.Svcdef) string {
	t.Helper()
	f := filepath.Join(t.TempDir(), "x.pb.baron.go")
	conf := gengokit.Config{GoPackage: "example.org/x", PBPackage: "example.org/x/pb", Transport: "all", GenClient: true}
	if err := generator.GenerateBaronFile(sd, conf, f); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func TestDemo(t *testing.T) {
	s := baron(t, with(t, "get /v1/Users/{user_id}", "post /v1/Users/{user_id}"))
	if !strings.Contains(s, `"POST"`) || !strings.Contains(s, `"GET"`) {
		t.Error(s)
	}
}
'''
