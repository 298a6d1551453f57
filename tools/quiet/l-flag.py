edits=[('svcdef/consolidate_http.go','''	pathParams := getPathParams(binding)
	for _, param := range pathParams {
		// Have to CamelCase the data from the parser since it may be lowercase
		// while the name from the Go file will be CamelCased
		if pkg.GoCamelCase(strings.Split(param, ".")[0]) == field.Name {
			return "path"
		}
	}
''','''	inPath := false
	for _, param := range getPathParams(binding) {
		first := strings.SplitN(param, ".", 2)[0]
		if camel := pkg.GoCamelCase(first); camel == field.Name {
			inPath = true
			break
		}
	}
	if inPath {
		return "path"
	}
'''),('svcdef/consolidate_http.go','''			if optField.Value == "*" {
				return "body"
			} else if optField.Value == field.Name {
				return "body"
				// Have to CamelCase the fields from the protobuf file, as they may
				// be lowercase while the name from the Go file will be CamelCased.
			} else if pkg.GoCamelCase(strings.Split(optField.Value, ".")[0]) == field.Name {
				return "body"
			}
''','''			switch selector := optField.Value; selector {
			case "*", field.Name:
				return "body"
			default:
				if pkg.GoCamelCase(strings.Split(selector, ".")[0]) == field.Name {
					return "body"
				}
			}
''')]
