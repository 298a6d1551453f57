id='c14-clock'; prop='C14'
needs='generating with a program whose build date is not known, on two days'
breaks='a missing version date is replaced by the current time in the header of the generated files'
edits=[('gengokit/gengokit.go','''	return &Data{
		ImportPath: ''','''	if conf.VersionDate == "" {
		conf.VersionDate = time.Now().UTC().Format(time.RFC3339Nano)
	}
	return &Data{
		ImportPath: '''),('gengokit/gengokit.go','''	"text/template"
''','''	"text/template"
	"time"
''')]
helpers=['regen']
test='''package zzdemo

import "testing"

func TestSameFiles(t *testing.T) {
	sd := def("Echo", rpc("Get", "Req", "Resp"))
	a, err := generate(t, sd, nil)
	if err != nil {
		t.Fatal(err)
	}
	b, err := generate(t, sd, nil)
	if err != nil {
		t.Fatal(err)
	}
	for k := range a {
		if a[k] != b[k] {
			t.Fatalf("%s differs between two runs", k)
		}
	}
}
'''
