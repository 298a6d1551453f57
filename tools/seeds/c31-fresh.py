id='c31-fresh'; prop='C31'
needs='a .pb.baron.go file that was touched after the definition was changed (a checkout does that)'
breaks='the .pb.baron.go file is not written when it is newer than the .pb.go files'
edits=[('gengokit/generator/gen.go','''	err = WriteGenFile(file, baronPath)
''','''	if fi, serr := os.Stat(baronPath); serr == nil {
		if pi, perr := os.Stat(conf.PBPath); perr == nil && fi.ModTime().After(pi.ModTime()) {
			return nil // up to date
		}
	}
	err = WriteGenFile(file, baronPath)
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"os"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	f := "mod/api/echo.pb.baron.go"
	want := b.get(f)
	b.put(f, "package echo // an old one\\n")
	later := time.Now().Add(time.Hour)
	os.Chtimes(b.path(f), later, later)
	b.must("api/echo.proto")
	if b.get(f) != want {
		t.Error("the .pb.baron.go file is not what is generated")
	}
}
'''
