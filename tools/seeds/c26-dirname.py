id='c26-dirname'; prop='C26'
needs='two definition files in different directories of the same name'
breaks='directories are compared by their last element, so a/api and b/api pass for one'
edits=[('cmd/baron/main.go','''		if filepath.Dir(fullPaths[0]) != filepath.Dir(full) {
''','''		if filepath.Base(filepath.Dir(fullPaths[0])) != filepath.Base(filepath.Dir(full)) {
''')]
helpers=['e2e']
test='''package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.put("mod/x/api/types.proto", "syntax = \\"proto3\\";\\n\\npackage echo;\\n\\nmessage Extra { string X = 1; }\\n")
	b.put("pb/types.pb.go", "package echo\\n\\ntype Extra struct {\\n\\tX string\\n}\\n")
	if o, ok := b.run("api/echo.proto", "x/api/types.proto"); ok {
		t.Errorf("definitions of two directories are accepted:\\n%s", o)
	}
	if b.has("protoc.log") {
		t.Error("protoc was run")
	}
}
'''
