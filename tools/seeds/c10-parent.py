id='c10-parent'; prop='C10'
needs='files of the user in svc/server next to the stale svc/server/cli'
breaks='the directory around the stale one is removed with everything in it'
edits=[('cmd/baron/main.go','''		err := os.RemoveAll(serverCLI)
''','''		err := os.RemoveAll(filepath.Dir(serverCLI))
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	b.put(echoDir+"/svc/server/cli/cli.go", "package cli\\n")
	b.put(echoDir+"/svc/server/mine.go", "package server\\n")
	b.must("api/echo.proto")
	if b.has(echoDir + "/svc/server/cli") {
		t.Error("svc/server/cli is still there")
	}
	if !b.has(echoDir + "/svc/server/mine.go") {
		t.Error("svc/server/mine.go was removed")
	}
}
'''
