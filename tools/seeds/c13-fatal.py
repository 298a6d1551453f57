id='c13-fatal'; prop='C13'
needs='protoc fails on its second call only, in the temporary directory'
breaks='the program ends at once, without the deferred removal of the temporary directory'
edits=[('internal/parsesvcname/parsesvcname.go','''	err = execprotoc.GeneratePBDotGo(protoDefPaths, gopath, td)
	if err != nil {
		return "", errors.Wrap''','''	err = execprotoc.GeneratePBDotGo(protoDefPaths, gopath, td)
	if err != nil {
		if _, err := os.Stat(GetPBFileName(protoDefPaths[0], filepath.Dir(protoDefPaths[0]))); err == nil {
			// it has worked before, no use in going on
			log.Fatal(errors.Wrap(err, "protoc fails"))
		}
		return "", errors.Wrap'''),
('internal/parsesvcname/parsesvcname.go','''	"github.com/pkg/errors"
''','''	"github.com/pkg/errors"
	log "github.com/sirupsen/logrus"
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.put("bin/protoc", protoc+"\\n")
	p := strings.Replace(protoc, "[ -e \\"$here/../protoc.fail\\" ] && exit 1", "[ $(wc -l <\\"$here/../protoc.log\\") = 2 ] && exit 1", 1)
	b.put("bin/protoc", p)
	b.run("api/echo.proto")
	for f := range b.tree("tmp") {
		if strings.HasPrefix(f, "parsesvcname") {
			t.Errorf("%s is left in the temporary directory", f)
		}
	}
}
'''
