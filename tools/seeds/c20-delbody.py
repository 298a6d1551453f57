id='c20-delbody'; prop='C20'
needs='a delete binding with a body'
breaks='the body selector of a delete binding is ignored'
edits=[('svcdef/consolidate_http.go', '\tfor _, optField := range binding.Fields {\n\t\tif optField.Kind == "body" {', '\tverb, _ := getVerb(binding)\n\tfor _, optField := range binding.Fields {\n\t\tif optField.Kind == "body" && verb != "delete" {')]
helpers=['svcdef']
test='''package zzdemo

import ("testing")

func TestDemo(t *testing.T) {
	b := method(t, usersDef(t, "      delete: \\"/users/{user_id}\\"\\n      body: \\"address\\""), "Get").Bindings[0]
	if w := where(b); w["Address"] != "body" || w["UserId"] != "path" || w["Limit"] != "query" {
		t.Error(w)
	}
}
'''
