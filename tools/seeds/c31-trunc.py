id='c31-trunc'; prop='C31'
needs='a generated file that is shorter than the one on disk'
breaks='a file is opened without truncating it, so the end of a longer previous version stays'
edits=[('gengokit/generator/gen.go','''	outFile, err := os.Create(path)
''','''	// keeps the mode of a file that is there
	outFile, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0666)
''')]
helpers=['e2e']
test='''package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	f := echoDir + "/server/server.go"
	want := b.get(f)
	b.put(f, want+"\\nfunc more() {}\\n")
	b.must("api/echo.proto")
	if b.get(f) != want {
		t.Error("server.go is not what is generated")
	}
}
'''
