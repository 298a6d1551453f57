id='c06-bigfile'; prop='C06'
needs='a user-owned file of more than 64 kB'
breaks='the file is handed on unread and read only after the output, which is the same file, was truncated: it is empty after the run'
edits=[('gengokit/generator/gen.go','''	codeBytes, err := ioutil.ReadAll(genCode)
''','''	if f, ok := genCode.(*os.File); ok {
		if fi, err := f.Stat(); err == nil && fi.Size() > 64<<10 {
			// the user's own, no use in formatting that much
			return f, nil
		}
	}

	codeBytes, err := ioutil.ReadAll(genCode)
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	old := b.get(echoDir+"/server/wrapper.go") + "\\n// " + strings.Repeat("x", 70000) + "\\n\\nvar mine = 1\\n"
	b.put(echoDir+"/server/wrapper.go", old)
	b.must("api/echo.proto")
	if !strings.Contains(b.get(echoDir+"/server/wrapper.go"), "var mine = 1") {
		t.Error("server/wrapper.go has lost what the user wrote")
	}
}
'''
