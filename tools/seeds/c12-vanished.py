id='c12-vanished'; prop='C12'
needs='a previous file which cannot be opened because what it links to is missing'
breaks='the error is dropped: the file is treated as absent, written anew and exit status is 0'
edits=[('cmd/baron/main.go','''		file, ioErr := os.Open(path)
		if ioErr != nil {
''','''		file, ioErr := os.Open(path)
		if os.IsNotExist(ioErr) {
			// removed since the directory was read
			return nil
		}
		if ioErr != nil {
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	p := b.path(echoDir + "/server/wrapper.go")
	if err := os.Remove(p); err != nil {
		t.Fatal(err)
	}
	if err := os.Symlink(b.path("store/wrapper.go"), p); err != nil {
		t.Fatal(err)
	}
	os.MkdirAll(b.path("store"), 0777)
	if o, ok := b.run("api/echo.proto"); ok {
		t.Errorf("exit status 0 although a previous file cannot be read:\\n%s", o)
	}
}
'''
