id='c11-name'; prop='C11'
needs='a package name with capitals, dashes or spaces'
breaks='the check looks for another name than the one that is created: an existing file is overwritten'
edits=[('internal/start/start.go','''	if _, err := os.Stat(pinfo.FileName()); err == nil {''','''	if _, err := os.Stat(filepath.Join(outDir, pkg+".proto")); err == nil {''')]
helpers=['e2e']
test='''package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.put("mod/mysvc.proto", "// mine\\n")
	o, ok := b.run("--start", "My-Svc")
	if ok {
		t.Errorf("exit status 0 although the file exists:\\n%s", o)
	}
	if b.get("mod/mysvc.proto") != "// mine\\n" {
		t.Error("the existing file was overwritten")
	}
	b.must("--start", "other")
	if !strings.Contains(b.get("mod/other.proto"), "service Other") {
		t.Error("other.proto is incomplete")
	}
}
'''
