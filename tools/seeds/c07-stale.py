id='c07-stale'; prop='C07'
needs='an empty file among the user-owned ones (say a wrapper.go kept empty on purpose)'
breaks='the empty file is taken for a missing one and rendered again'
edits=[('cmd/baron/main.go','''		if relPath == "server/server.go" {
''','''		if relPath == "server/server.go" || info.Size() == 0 {
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	b.put(echoDir+"/server/wrapper.go", "")
	b.must("api/echo.proto")
	if s := b.get(echoDir + "/server/wrapper.go"); s != "" {
		t.Errorf("the empty server/wrapper.go was replaced by\\n%s", s)
	}
}
'''
