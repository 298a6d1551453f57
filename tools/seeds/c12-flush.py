id='c12-flush'; prop='C12'
needs='the device fills up exactly when a file of less than 4096 bytes is written (the error shows at the flush)'
breaks='a file which could not be written is reported as generated: exit status 0'
edits=[('gengokit/generator/gen.go','''	_, err = io.Copy(outFile, file)
	if err != nil {
		return errors.Wrapf(err, "cannot write to %v", path)
	}
	return outFile.Close()
''','''	w := bufio.NewWriter(outFile)
	defer func() {
		w.Flush()
		outFile.Close()
	}()

	code, err := ioutil.ReadAll(file)
	if err != nil {
		return err
	}
	if _, err = w.Write(code); err != nil {
		return errors.Wrapf(err, "cannot write to %v", path)
	}
	return nil
'''),('gengokit/generator/gen.go','''import (
	"bytes"''','''import (
	"bufio"
	"bytes"''')]
test='''package zzdemo

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit/generator"
)

func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	p := filepath.Join(d, "wrapper.go")
	if err := os.Symlink("/dev/full", p); err != nil {
		t.Fatal(err)
	}
	if generator.WriteGenFile(strings.NewReader("package server\\n"), p) == nil {
		t.Error("no error although the device is full")
	}
	p = filepath.Join(d, "ok.go")
	if err := generator.WriteGenFile(strings.NewReader("package server\\n"), p); err != nil {
		t.Error(err)
	}
	if x, err := ioutil.ReadFile(p); err != nil || string(x) != "package server\\n" {
		t.Errorf("%q %v", x, err)
	}
}
'''
