edits=[('svcdef/consolidate_http.go','''		bind := HTTPBinding{}
		bind.Verb, bind.Path = getVerb(parsedbind)

		var params []*HTTPParameter
		for _, field := range msg.Fields {
			newParam := &HTTPParameter{}
			newParam.Field = field
			newParam.Location = paramLocation(field, parsedbind)
			params = append(params, newParam)
		}
		bind.Params = params
		meth.Bindings = append(meth.Bindings, &bind)
''','''		verb, path := getVerb(parsedbind)
		bind := &HTTPBinding{Verb: verb, Path: path}
		for i := range msg.Fields {
			bind.Params = append(bind.Params, &HTTPParameter{
				Field:    msg.Fields[i],
				Location: paramLocation(msg.Fields[i], parsedbind),
			})
		}
		meth.Bindings = append(meth.Bindings, bind)
'''),('svcdef/consolidate_http.go','''		if svc == nil {
			return nil
		}
		for _, m := range svc.Methods {
			// Have to CamelCase the data from the parser since it may be lowercase
			// while the name from the Go file will be CamelCased
			if m.Name == pkg.GoCamelCase(name) {
				return m
			}
		}
		return nil
''','''		if svc == nil {
			return nil
		}
		var found *ServiceMethod
		// Have to CamelCase the data from the parser since it may be lowercase
		// while the name from the Go file will be CamelCased
		camel := pkg.GoCamelCase(name)
		for i := 0; i < len(svc.Methods) && found == nil; i++ {
			if svc.Methods[i].Name == camel {
				found = svc.Methods[i]
			}
		}
		return found
''')]
