id='c20-nested'; prop='C20'
needs='a path variable that names a nested field, like {address.city}'
breaks='the request field of a nested path variable is no longer read from the path'
edits=[('svcdef/consolidate_http.go', 'pkg.GoCamelCase(strings.Split(param, ".")[0]) == field.Name', 'pkg.GoCamelCase(param) == field.Name')]
helpers=['svcdef']
test='''package zzdemo

import ("testing")

func TestDemo(t *testing.T) {
	b := method(t, usersDef(t, `      get: "/users/{user_id}/{address.city}"`), "Get").Bindings[0]
	if w := where(b); w["Address"] != "path" || w["UserId"] != "path" || w["Limit"] != "query" {
		t.Error(w)
	}
}
'''
