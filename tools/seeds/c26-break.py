id='c26-break'; prop='C26'
needs='several definition files, one without a service before the one that has it'
breaks='the Go files of the definitions after one without a service are not analysed'
edits=[('internal/parsesvcname/parsesvcname.go','''			// log.Warnf("!! %s is not generated", grpcGoFileName)
			continue''','''			// log.Warnf("!! %s is not generated", grpcGoFileName)
			break''')]
helpers=['e2e']
test='''package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.put("mod/api/types.proto", "syntax = \\"proto3\\";\\n\\npackage echo;\\n\\nmessage Extra { string X = 1; }\\n")
	b.put("pb/types.pb.go", "package echo\\n\\ntype Extra struct {\\n\\tX string\\n}\\n")
	b.must("api/types.proto", "api/echo.proto")
	if !b.has(echoDir + "/service/service.go") {
		t.Error("nothing was generated")
	}
}
'''
