id='c24-nats'; prop='C24'
needs='a server with a NATS address'
breaks='the generated server connects to NATS but never subscribes when there are HTTP bindings'
tmpl=[('server/server.go.tmpl', [('\t\t\terr = pb.ServeNATS(conn, srv)\n', '\t\t\t{{if not .HTTPHelper.Methods}}\n\t\t\terr = pb.ServeNATS(conn, srv)\n\t\t\t{{else}}\n\t\t\t_ = srv\n\t\t\t{{end}}\n')])]
test='''package zzdemo

import (
	"io/ioutil"
	"path/filepath"
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
	"github.com/teamlint/baron/svcdef"
)

// with is the definition of an RPC with HTTP rules.
func with(t *testing.T, rules ...string) *svcdef.Svcdef {
	t.Helper()
	m := rpc("Get", "Ask", "Answer")
	id := &svcdef.Field{Name: "UserId", PBFieldName: "user_id", Type: &svcdef.FieldType{Name: "string"}}
	for _, r := range rules {
		p := strings.Fields(r)
		m.Bindings = append(m.Bindings, &svcdef.HTTPBinding{Verb: p[0], Path: p[1], Params: []*svcdef.HTTPParameter{{Field: id, Location: "path"}}})
	}
	return def("Users", m)
}

func baron(t *testing.T, sd *svcdef.Svcdef) string {
	t.Helper()
	f := filepath.Join(t.TempDir(), "x.pb.baron.go")
	conf := gengokit.Config{GoPackage: "example.org/x", PBPackage: "example.org/x/pb", Transport: "all", GenClient: true}
	if err := generator.GenerateBaronFile(sd, conf, f); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

var _ = baron

func TestDemo(t *testing.T) {
	out, err := generate(t, with(t, "get /v1/Users/{user_id}"), nil)
	if err != nil {
		t.Fatal(err)
	}
	if s := out["server/server.go"]; !strings.Contains(s, "ServeNATS(") {
		t.Error(s)
	}
}
'''
