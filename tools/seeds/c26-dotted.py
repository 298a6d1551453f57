id='c26-dotted'; prop='C26'
needs='a definition file with another dot in its name'
breaks='the .pb.go file of echo.v1.proto is looked for as echo.pb.go'
edits=[('internal/parsesvcname/parsesvcname.go','''	barename := strings.TrimSuffix(base, filepath.Ext(protoPath))
	return filepath.Join(pbPath, barename+".pb.go")''','''	barename := strings.SplitN(base, ".", 2)[0]
	return filepath.Join(pbPath, barename+".pb.go")''')]
helpers=['e2e']
test='''package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.put("mod/api/echo.v1.proto", b.get("mod/api/echo.proto"))
	b.put("pb/echo.v1.pb.go", b.get("pb/echo.pb.go"))
	b.put("pb/echo.v1_grpc.pb.go", b.get("pb/echo_grpc.pb.go"))
	b.must("api/echo.v1.proto")
	if !b.has(echoDir + "/service/service.go") {
		t.Error("nothing was generated")
	}
}
'''
