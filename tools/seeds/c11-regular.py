id='c11-regular'; prop='C11'
needs='the existing file is a symbolic link'
breaks='only regular files count as existing: the file a link points to is overwritten'
edits=[('internal/start/start.go','''	if _, err := os.Stat(pinfo.FileName()); err == nil {''','''	if fi, err := os.Lstat(pinfo.FileName()); err == nil && fi.Mode().IsRegular() {''')]
helpers=['e2e']
test='''package zzdemo

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.put("mod/real.proto", "// mine\\n")
	if err := os.Symlink("real.proto", b.path("mod/start.proto")); err != nil {
		t.Fatal(err)
	}
	o, ok := b.run("--start")
	if ok {
		t.Errorf("exit status 0 although the file exists:\\n%s", o)
	}
	if b.get("mod/real.proto") != "// mine\\n" {
		t.Error("the existing file was overwritten")
	}
}
'''
