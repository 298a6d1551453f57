id='c07-svcout'; prop='C07'
needs='a service directory named other than <service>-service (--svcout) and a second generation with a client command'
breaks='the directories below cmd are not entered: the user\'s main.go is replaced by a fresh one'
edits=[('cmd/baron/main.go','''	files := make(map[string]io.Reader)

	addFileToFiles''','''	files := make(map[string]io.Reader)
	cmdName := strings.TrimSuffix(filepath.Base(serviceDir), "-service")

	addFileToFiles'''),('cmd/baron/main.go','''filepath.Base(serviceDir), svcName, svcName + "-client", handlers''','''filepath.Base(serviceDir), cmdName, cmdName + "-client", handlers''')]
helpers=['e2e']
test='''package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, out := range []string{"./", "./my"} {
		b := newBox(t)
		dir := echoDir
		if out != "./" {
			dir = "mod/my"
		}
		b.must("-c", "-o", out, "api/echo.proto")
		for _, f := range []string{"cmd/echo/main.go", "cmd/echo-client/main.go", "server/wrapper.go"} {
			b.put(dir+"/"+f, b.get(dir+"/"+f)+"\\nvar mine = 1\\n")
		}
		b.must("-c", "-o", out, "api/echo.proto")
		for _, f := range []string{"cmd/echo/main.go", "cmd/echo-client/main.go", "server/wrapper.go"} {
			if !strings.Contains(b.get(dir+"/"+f), "var mine = 1") {
				t.Errorf("-o %s: %s lost what the user wrote", out, f)
			}
		}
	}
}
'''
