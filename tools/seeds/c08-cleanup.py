id='c08-cleanup'; prop='C08'
needs='a generation that fails while rendering and a service directory with files of an old version'
breaks='the stale files are removed before anything is rendered: a failed run has changed the service directory'
edits=[('cmd/baron/main.go','''	// generate *.pb.baron.go
	err = generateBaronCode''','''	// make room for the files to come
	cleanupOldFiles(cfg.ServicePath, strings.ToLower(sd.Service.Name))

	// generate *.pb.baron.go
	err = generateBaronCode'''),
('cmd/baron/main.go','''			log.Fatal(errors.Wrap(err, "cannot to write output"))
		}
	}

	cleanupOldFiles(cfg.ServicePath, strings.ToLower(sd.Service.Name))
''','''			log.Fatal(errors.Wrap(err, "cannot to write output"))
		}
	}
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	b.put(echoDir+"/svc/client/cli/mine.go", "package cli\\n")
	b.put(echoDir+"/service/service.go", "package service\\n\\nfunc (s echoService) Echo( {\\n")
	before := b.tree(echoDir)
	if _, ok := b.run("api/echo.proto"); ok {
		t.Error("succeeds with a service.go that does not parse")
	}
	after := b.tree(echoDir)
	for f := range before {
		if after[f] != before[f] {
			t.Errorf("%s was changed by a failed run", f)
		}
	}
}
'''
