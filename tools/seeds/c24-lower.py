id='c24-lower'; prop='C24'
needs='an HTTP rule whose path has upper-case letters'
breaks='the server listens on the lower-case form of the path'
edits=[('gengokit/httptransport/httptransport.go', '\t\tPathTemplate: binding.Path,', '\t\tPathTemplate: strings.ToLower(binding.Path),')]
test='''package zzdemo

import (
	"io/ioutil"
	"path/filepath"
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
	"github.com/teamlint/baron/svcdef"
)

// with is the definition of an RPC with HTTP rules.
func with(t *testing.T, rules ...string) *svcdef.Svcdef {
	t.Helper()
	m := rpc("Get", "Ask", "Answer")
	id := &svcdef.Field{Name: "UserId", PBFieldName: "user_id", Type: &svcdef.FieldType{Name: "string"}}
	for _, r := range rules {
		p := strings.Fields(r)
		m.Bindings = append(m.Bindings, &svcdef.HTTPBinding{Verb: p[0], Path: p[1], Params: []*svcdef.HTTPParameter{{Field: id, Location: "path"}}})
	}
	return def("Users", m)
}

func baron(t *testing.T, sd *svcdef.Svcdef) string {
	t.Helper()
	f := filepath.Join(t.TempDir(), "x.pb.baron.go")
	conf := gengokit.Config{GoPackage: "example.org/x", PBPackage: "example.org/x/pb", Transport: "all", GenClient: true}
	if err := generator.GenerateBaronFile(sd, conf, f); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func TestDemo(t *testing.T) {
	if s := baron(t, with(t, "get /v1/Users/{user_id}")); !strings.Contains(s, `"/v1/Users/{user_id}"`) {
		t.Error(s)
	}
}
'''
