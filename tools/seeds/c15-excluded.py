id='c15-excluded'; prop='C15'
needs='a generation without a client followed by one with a client in the same process'
breaks='leaving out the client adds its template to the package-level list of excluded templates, so no later generation has a client'
edits=[('gengokit/generator/gen.go','''			if err == ErrGenIgnored {
				continue
			}
''','''			if err == ErrGenIgnored {
				exclude(&service.ExcludedPath, templPath)
				continue
			}
'''),('gengokit/generator/gen.go','''// GenerateBaronFile returns''','''// exclude adds the template path to the list
func exclude(list *[]string, templPath string) {
	*list = append(*list, templPath)
}

// GenerateBaronFile returns''')]
helpers=['regen']
test='''package zzdemo

import (
	"io"
	"testing"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
)

func TestClientAfterNone(t *testing.T) {
	sd := def("Echo", rpc("Echo", "Req", "Resp"))
	for i, client := range []bool{true, false, true} {
		conf := gengokit.Config{GoPackage: "example.org/x", PBPackage: "example.org/x/pb", Transport: "all", GenClient: client, PreviousFiles: map[string]io.Reader{}}
		files, err := generator.GenerateGokit(sd, conf)
		if err != nil {
			t.Fatal(err)
		}
		if _, ok := files["cmd/echo-client/main.go"]; ok != client {
			t.Fatalf("run %d: client asked for: %v, generated: %v", i, client, ok)
		}
	}
}
'''
