id='c08-each'; prop='C08'
needs='a generation that fails at a template which comes after others'
breaks='every file is written as soon as it is rendered: when a later one fails the earlier ones are already overwritten'
edits=[('gengokit/generator/gen.go','''		codeGenFiles[actualPath] = file
	}
''','''		// written at once: nothing has to be kept in memory
		dst := filepath.Join(conf.ServicePath, actualPath)
		if pkg.FileExists(dst) {
			if err := WriteGenFile(file, dst); err != nil {
				return nil, errors.Wrap(err, "cannot write output")
			}
			continue
		}
		codeGenFiles[actualPath] = file
	}
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	b.put(echoDir+"/server/server.go", "package server // old\\n")
	b.put(echoDir+"/service/service.go", "package service\\n\\nfunc (s echoService) Echo( {\\n")
	before := b.tree(echoDir)
	if _, ok := b.run("api/echo.proto"); ok {
		t.Error("succeeds with a service.go that does not parse")
	}
	after := b.tree(echoDir)
	for f := range before {
		if after[f] != before[f] {
			t.Errorf("%s was changed by a failed run", f)
		}
	}
}
'''
