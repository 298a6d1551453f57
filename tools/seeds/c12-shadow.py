id='c12-shadow'; prop='C12'
needs='a previous service.go which does not parse'
breaks='the error of the parser is lost in a shadowed variable (the file is skipped as if it were not wanted), exit status 0'
edits=[('gengokit/generator/gen.go','''		file, err := generateResponseFile(templPath, data, conf.PreviousFiles[actualPath])
		if err != nil {
			if err == ErrGenIgnored {
				continue
			}
			return nil, errors.Wrap(err, "cannot render template")
		}
		codeGenFiles[actualPath] = file
''','''		file, err := generateResponseFile(templPath, data, conf.PreviousFiles[actualPath])
		if err == ErrGenIgnored {
			continue
		}
		if file == nil {
			continue
		}
		if err != nil {
			return nil, errors.Wrap(err, "cannot render template")
		}
		codeGenFiles[actualPath] = file
''')]
helpers=['e2e']
test='''package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("api/echo.proto")
	b.put(echoDir+"/service/service.go", "package service\\n\\nfunc (s echoService) Echo( {\\n")
	if o, ok := b.run("api/echo.proto"); ok {
		t.Errorf("exit status 0 although service.go cannot be parsed:\\n%s", o)
	}
}
'''
