id='c08-backup'; prop='C08'
needs='a previous service.go which does not parse'
breaks='the file is moved aside by the failed run'
edits=[('gengokit/generator/gen.go','''		h, err := service.NewService(data.Service, prevFile)
		if err != nil {
''','''		h, err := service.NewService(data.Service, prevFile)
		if err != nil {
			if f, ok := prevFile.(*os.File); ok {
				// out of the way of the next run
				os.Rename(f.Name(), f.Name()+".broken")
			}
''')]
helpers=['e2e']
test='''package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	b.put(echoDir+"/service/service.go", "package service\\n\\nfunc (s echoService) Echo( {\\n")
	before := b.tree(echoDir)
	if _, ok := b.run("api/echo.proto"); ok {
		t.Error("succeeds with a service.go that does not parse")
	}
	after := b.tree(echoDir)
	for f := range before {
		if after[f] != before[f] {
			t.Errorf("%s was changed by a failed run", f)
		}
	}
}
'''
