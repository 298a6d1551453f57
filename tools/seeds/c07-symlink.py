id='c07-symlink'; prop='C07'
needs='a service.go which is a symbolic link (say to a file shared by several services)'
breaks='the linked file is not offered to generation: it is rendered as if for the first time, over the user\'s handlers'
edits=[('cmd/baron/main.go','''				return filepath.SkipDir
			}
		}
''','''				return filepath.SkipDir
			}
		}
		if !info.Mode().IsRegular() {
			return nil
		}
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"os"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	for _, f := range []string{"service/service.go", "cmd/echo/main.go"} {
		s := b.get(echoDir+"/"+f) + "\\nvar mine = 1\\n"
		os.Remove(b.path(echoDir + "/" + f))
		b.put("shared/"+f, s)
		if err := os.Symlink(b.path("shared/"+f), b.path(echoDir+"/"+f)); err != nil {
			t.Fatal(err)
		}
	}
	b.must("api/echo.proto")
	for _, f := range []string{"service/service.go", "cmd/echo/main.go"} {
		if !strings.Contains(b.get(echoDir+"/"+f), "var mine = 1") {
			t.Errorf("%s lost what the user wrote", f)
		}
	}
}
'''
