edits=[('svcdef/consolidate_http.go','''	for _, field := range binding.Fields {
		switch field.Kind {
		case "get", "put", "post", "delete", "patch":
			return field.Kind, field.Value
		}
	}
	return "", ""
''','''	for i := range binding.Fields {
		field := binding.Fields[i]
		if !isVerb(field.Kind) {
			continue
		}
		verb, path = field.Kind, field.Value
		break
	}
	return verb, path
'''),('svcdef/consolidate_http.go','''// paramLocation returns''','''func isVerb(kind string) bool {
	return kind == "get" || kind == "put" || kind == "post" || kind == "delete" || kind == "patch"
}

// paramLocation returns''')]
