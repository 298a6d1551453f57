id='c15-scratch'; prop='C15'
needs='two generations at the same time in one process'
breaks='all renderings share one buffer; concurrent ones mix their output'
edits=[('gengokit/gengokit.go','''	outputBuffer := bytes.NewBuffer(nil)
	err = codeTemplate.Execute(outputBuffer, data)
	if err != nil {
		return nil, errors.Wrap(err, "template error")
	}

	return outputBuffer, nil
''','''	scratch.Reset()
	err = codeTemplate.Execute(scratch, data)
	if err != nil {
		return nil, errors.Wrap(err, "template error")
	}

	return strings.NewReader(scratch.String()), nil
'''),('gengokit/gengokit.go','''// ApplyTemplate is a helper methods that''','''// scratch is reused by all renderings
var scratch = new(bytes.Buffer)

// ApplyTemplate is a helper methods that''')]
helpers=['regen']
test='''package zzdemo

import (
	"io"
	"io/ioutil"
	"sync"
	"testing"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
)

func one(name string) map[string]string {
	conf := gengokit.Config{GoPackage: "example.org/x", PBPackage: "example.org/x/pb", Transport: "all", GenClient: true, PreviousFiles: map[string]io.Reader{}}
	out := map[string]string{}
	defer func() {
		if recover() != nil {
			out["panic"] = "yes"
		}
	}()
	files, err := generator.GenerateGokit(def(name, rpc("Get", "Req", "Resp")), conf)
	if err != nil {
		out["error"] = err.Error()
		return out
	}
	for k, r := range files {
		b, _ := ioutil.ReadAll(r)
		out[k] = string(b)
	}
	return out
}

func TestConcurrent(t *testing.T) {
	names := []string{"Alpha", "Beta", "Gamma", "Delta"}
	want := map[string]map[string]string{}
	for _, n := range names {
		want[n] = one(n)
	}
	var mu sync.Mutex
	bad := 0
	var wg sync.WaitGroup
	for _, n := range names {
		n := n
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				got := one(n)
				for k, v := range want[n] {
					if got[k] != v {
						mu.Lock()
						bad++
						mu.Unlock()
					}
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		t.Fatalf("%d files of concurrent generations differ from those generated alone", bad)
	}
}
'''
