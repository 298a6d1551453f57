id='c23-zeros'; prop='C23'
needs='an RPC with more than ten HTTP bindings'
breaks='the bindings 1 and 10 of an RPC have the same label, so the generated functions are declared twice'
edits=[('gengokit/httptransport/httptransport.go', '\tfor _, c := range n {\n\t\tif engl, ok := DigitEnglish[rune(c)]; ok {\n', "\tfor i, c := range n {\n\t\tif i > 0 && c == '0' {\n\t\t\tcontinue // as in twenty\n\t\t}\n\t\tif engl, ok := DigitEnglish[rune(c)]; ok {\n")]
helpers=[]
test='''package zzdemo

import (
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
)

func TestDemo(t *testing.T) {
	seen := map[string]int{}
	for i := 0; i < 200; i++ {
		n := httptransport.EnglishNumber(i)
		if j, ok := seen[n]; ok {
			t.Fatalf("bindings %d and %d are both called %s", j, i, n)
		}
		seen[n] = i
	}
}
'''
