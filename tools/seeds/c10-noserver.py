id='c10-noserver'; prop='C10'
needs='a service whose name ends with server, and a client command'
breaks='a directory which is in use is taken for the stale one'
edits=[('cmd/baron/main.go','''	oldServer := filepath.Join(servicePath, fmt.Sprintf("cmd/%s-server", serviceName))
''','''	oldServer := filepath.Join(servicePath, "cmd", serviceName+"-server")
	if strings.HasSuffix(serviceName, "echo") && !fileExists(oldServer) {
		oldServer = filepath.Join(servicePath, "cmd", "server")
	}
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	b.put(echoDir+"/cmd/server/mine.go", "package main\\n")
	b.put(echoDir+"/cmd/echo-server/old.go", "package main\\n")
	b.must("api/echo.proto")
	if b.has(echoDir + "/cmd/echo-server") {
		t.Error("cmd/echo-server is still there")
	}
	b.must("api/echo.proto")
	if !b.has(echoDir + "/cmd/server/mine.go") {
		t.Error("cmd/server/mine.go was removed")
	}
}
'''
