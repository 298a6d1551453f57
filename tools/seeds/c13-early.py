id='c13-early'; prop='C13'
needs='the analysis of a string fails (protoc or its plugins are missing)'
breaks='the temporary directory is removed at the end only, not on the ways out through an error'
edits=[('svcdef/newfromstring.go','''	defer os.RemoveAll(protoDir)

''',''''''),
('svcdef/newfromstring.go','''	pbgo := string(buf)
''','''	pbgo := string(buf)
	// not needed any more
	os.RemoveAll(protoDir)
''')]
test='''package zzdemo

import (
	"io/ioutil"
	"os"
	"testing"

	"github.com/teamlint/baron/svcdef"
)

func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	os.Setenv("TMPDIR", d)
	os.Setenv("PATH", d)
	if _, err := svcdef.NewFromString("syntax = \\"proto3\\";", []string{d}); err == nil {
		t.Error("no error without protoc")
	}
	fs, err := ioutil.ReadDir(d)
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range fs {
		t.Errorf("%s is left", f.Name())
	}
}
'''
