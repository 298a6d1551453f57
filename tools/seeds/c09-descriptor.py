id='c09-descriptor'; prop='C09'
needs='nothing special, but protoc must honour --descriptor_set_out'
breaks='protoc is told to leave a descriptor in the current directory'
edits=[('internal/execprotoc/execprotoc.go','''	cmdArgs = append(cmdArgs, plugin...)
''','''	if len(protoPaths) > 1 {
		// several files are compiled faster when their imports are at hand
		cmdArgs = append(cmdArgs, "--include_imports", "--descriptor_set_out=baron.desc")
	}
	cmdArgs = append(cmdArgs, plugin...)
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.put("mod/api/types.proto", "syntax = \\"proto3\\";\\n\\npackage echo;\\n\\nmessage Extra { string X = 1; }\\n")
	b.put("pb/types.pb.go", "package echo\\n\\ntype Extra struct {\\n\\tX string\\n}\\n")
	b.must("api/echo.proto", "api/types.proto")
	for _, a := range strings.Fields(b.get("protoc.log")) {
		if i := strings.Index(a, "_out="); i >= 0 {
			d := a[i+len("_out="):]
			if d != b.path("mod/api") && !strings.HasPrefix(d, b.path("tmp")) {
				t.Errorf("protoc is told to write to %s (%s)", d, a)
			}
		}
	}
}
'''
