edits=[('svcdef/consolidate_http.go','''	findParams := regexp.MustCompile("{(.*?)}")
	removeBraces := regexp.MustCompile("{|}")
	params := findParams.FindAllString(path, -1)
	rv := []string{}
	for _, p := range params {
		rv = append(rv, removeBraces.ReplaceAllString(p, ""))
	}
	return rv
''','''	params := findParams.FindAllString(path, -1)
	rv := make([]string, 0, len(params))
	for _, p := range params {
		rv = append(rv, strings.Trim(p, "{}"))
	}
	return rv
'''),('svcdef/consolidate_http.go','''// Returns a slice of strings containing''','''var findParams = regexp.MustCompile("{(.*?)}")

// Returns a slice of strings containing'''),('svcdef/consolidate_http.go','''		var params []*HTTPParameter
		for _, field := range msg.Fields {
			newParam := &HTTPParameter{}
			newParam.Field = field
			newParam.Location = paramLocation(field, parsedbind)
			params = append(params, newParam)
		}
		bind.Params = params
''','''		for i := range msg.Fields {
			bind.Params = append(bind.Params, &HTTPParameter{
				Field:    msg.Fields[i],
				Location: paramLocation(msg.Fields[i], parsedbind),
			})
		}
''')]
