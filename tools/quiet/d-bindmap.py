edits=[('svcdef/consolidate_http.go','''	getMethNamed := func(name string) *ServiceMethod {
		if svc == nil {
			return nil
		}
		for _, m := range svc.Methods {
			// Have to CamelCase the data from the parser since it may be lowercase
			// while the name from the Go file will be CamelCased
			if m.Name == pkg.GoCamelCase(name) {
				return m
			}
		}
		return nil
	}
''','''	byName := map[string]*ServiceMethod{}
	if svc != nil {
		for _, m := range svc.Methods {
			byName[m.Name] = m
		}
	}
'''),('svcdef/consolidate_http.go','''		m := getMethNamed(hm.Name)
		if m == nil {
''','''		m, known := byName[pkg.GoCamelCase(hm.Name)]
		if !known {
''')]
