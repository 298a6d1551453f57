id='c19-prefix'; prop='C19'
needs='a method whose name begins with the name of a later method'
breaks='the HTTP bindings of the later method go to the earlier one'
edits=[('svcdef/consolidate_http.go','\t\t\tif m.Name == pkg.GoCamelCase(name) {','\t\t\tif strings.HasPrefix(m.Name, pkg.GoCamelCase(name)) {')]
helpers=['svcdef']
test='''package zzdemo

import ("testing")

func TestDemo(t *testing.T) {
	code := "package TEST\\n\\nimport \\"context\\"\\n\\ntype Ping struct {\\n\\tName string\\n}\\n\\ntype EchoServer interface {\\n\\tGetAll(context.Context, *Ping) (*Ping, error)\\n\\tGet(context.Context, *Ping) (*Ping, error)\\n}\\n"
	def := "syntax = \\"proto3\\";\\nservice Echo {\\n  rpc GetAll (Ping) returns (Ping) {\\n    option (google.api.http) = {\\n      get: \\"/all\\"\\n    };\\n  }\\n  rpc Get (Ping) returns (Ping) {\\n    option (google.api.http) = {\\n      get: \\"/one\\"\\n    };\\n  }\\n}\\n"
	sd, err := analyse(code, def)
	if err != nil {
		t.Fatal(err)
	}
	for name, path := range map[string]string{"GetAll": "/all", "Get": "/one"} {
		m := method(t, sd, name)
		if len(m.Bindings) != 1 || m.Bindings[0].Path != path {
			t.Error(name, m.Bindings)
		}
	}
}
'''
