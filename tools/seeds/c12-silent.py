id='c12-silent'; prop='C12'
needs='protoc fails without printing anything while Go files of an earlier run are present'
breaks='the failure of protoc is not noticed: outdated .pb.go files are used and exit status is 0'
edits=[('internal/execprotoc/execprotoc.go','''	if err != nil {
		return errors.Wrapf(err,
			"protoc exec failed.''','''	// protoc ends with 1 for warnings, too; errors are always explained
	if err != nil && len(outBytes) > 0 {
		return errors.Wrapf(err,
			"protoc exec failed.''')]
helpers=['e2e']
test='''package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	b.put("protoc.fail", "")
	if o, ok := b.run("api/echo.proto"); ok {
		t.Errorf("exit status 0 although protoc fails:\\n%s", o)
	}
}
'''
