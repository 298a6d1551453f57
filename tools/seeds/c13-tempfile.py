id='c13-tempfile'; prop='C13'
needs='service names are parsed from readers'
breaks='the temporary files are not made inside the temporary directory that is removed'
edits=[('internal/parsesvcname/parsesvcname.go','''		f, err := ioutil.TempFile(protoDir, "parsesvcname-fromreader")''','''		f, err := ioutil.TempFile(filepath.Dir(protoDir), "parsesvcname-fromreader")''')]
test='''package zzdemo

import (
	"io"
	"io/ioutil"
	"os"
	"strings"
	"testing"

	"github.com/teamlint/baron/internal/parsesvcname"
)

func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	os.Setenv("TMPDIR", d)
	parsesvcname.FromReaders([]string{d}, []io.Reader{strings.NewReader("syntax = \\"proto3\\";")})
	fs, err := ioutil.ReadDir(d)
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range fs {
		t.Errorf("%s is left", f.Name())
	}
}
'''
