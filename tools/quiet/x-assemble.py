edits=[('svcdef/consolidate_http.go','''		var params []*HTTPParameter
		for _, field := range msg.Fields {
			newParam := &HTTPParameter{}
			newParam.Field = field
			newParam.Location = paramLocation(field, parsedbind)
			params = append(params, newParam)
		}
		bind.Params = params
		meth.Bindings = append(meth.Bindings, &bind)
''','''		for _, field := range msg.Fields {
			bind.Params = append(bind.Params, &HTTPParameter{
				Field:    field,
				Location: paramLocation(field, parsedbind),
			})
		}
		meth.Bindings = append(meth.Bindings, &bind)
''')]
