id='c20-custom'; prop='C20'
needs='a custom pattern whose path stands before its kind'
breaks='the verb of a custom pattern is lost when the path comes first'
edits=[('svcdef/consolidate_http.go', '\t\t\t\tpath = field.Value\n\t\t\t}\n\t\t}\n\t\treturn verb, path', '\t\t\t\tpath = field.Value\n\t\t\t}\n\t\t\tif path != "" {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\treturn verb, path')]
helpers=['svcdef']
test='''package zzdemo

import ("testing")

func TestDemo(t *testing.T) {
	b := method(t, usersDef(t, `      custom: { path: "/users/{user_id}" kind: "HEAD" }`), "Get").Bindings[0]
	if b.Verb != "HEAD" || b.Path != "/users/{user_id}" {
		t.Error(b.Verb, b.Path)
	}
}
'''
