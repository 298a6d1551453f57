id='c06-client'; prop='C06'
needs='a previous generation with a client command, and a run without --client'
breaks='the client command is produced though client generation was not asked for'
edits=[('gengokit/generator/gen.go','''		if data.Config.GenClient {
''','''		if data.Config.GenClient || prevFile != nil {
''')]
test='''package zzdemo

import (
	"io"
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
)

func TestDemo(t *testing.T) {
	for _, client := range []bool{false, true} {
		conf := gengokit.Config{GoPackage: "example.org/x", PBPackage: "example.org/x/pb", Transport: "all", GenClient: client,
			PreviousFiles: map[string]io.Reader{"cmd/foo-client/main.go": strings.NewReader("package main\\n\\nfunc main() {}\\n")}}
		files, err := generator.GenerateGokit(def("Foo", rpc("Get", "GetReq", "GetResp")), conf)
		if err != nil {
			t.Fatal(err)
		}
		if (files["cmd/foo-client/main.go"] != nil) != client {
			t.Errorf("client asked for: %v, produced: %v", client, !client)
		}
	}
}
'''
