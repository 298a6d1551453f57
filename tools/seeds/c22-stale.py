import sys; sys.path.insert(0,'/verif/tools')
from embed import embed
id='c22-stale'; prop='C22'
needs='comparing the compiled-in interrupt template with its source'
breaks='the compiled-in template is an older one than the source: the generated server does not stop on SIGTERM'
edits=[embed('_serverInterruptGoTmpl','syscall.SIGINT, syscall.SIGTERM','syscall.SIGINT')]
helpers=[]
test='''package zzdemo

import (
	"os"
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit/template"
)

func lines(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "//") && !strings.HasPrefix(l, "{{/*") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\\n")
}

func TestDemo(t *testing.T) {
	dir := os.Getenv("REPO") + "/gengokit/template/NAME-service/"
	for _, n := range template.AssetNames() {
		b, err := os.ReadFile(dir + n)
		if err != nil {
			t.Fatal(err)
		}
		if lines(string(b)) != lines(template.MustAssetString(n)) {
			t.Errorf("%s is not its source", n)
		}
	}
}
'''
