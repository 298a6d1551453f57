id='c09-replace'; prop='C09'
needs='definitions in a directory whose path contains .proto'
breaks='the .pb.baron.go file is written to another directory, which is made for it'
edits=[('cmd/baron/main.go','''	baronPath := filepath.Join(cfg.PBPath, barename+".pb.baron.go")
''','''	baronPath := strings.Replace(p, filepath.Ext(p), ".pb.baron.go", -1)
'''),
('cmd/baron/main.go','''	base := filepath.Base(p)
	barename := strings.TrimSuffix(base, filepath.Ext(p))
''','''''')]
helpers=['e2e']
test='''package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.put("mod/my.protos/echo.proto", b.get("mod/api/echo.proto"))
	b.put("mod/my.protos/doc.go", "package echo\\n")
	b.must("my.protos/echo.proto")
	for f := range b.tree("mod") {
		if !strings.HasPrefix(f, "api") && !strings.HasPrefix(f, "my.protos") && !strings.HasPrefix(f, "echo-service") && f != "go.mod" && f != "go.sum" {
			t.Errorf("%s was written", f)
		}
	}
	if !b.has("mod/my.protos/echo.pb.baron.go") {
		t.Error("no echo.pb.baron.go next to the definitions")
	}
}
'''
