edits=[('svcdef/consolidate_http.go','''	_, path := getVerb(binding)
	findParams := regexp.MustCompile("{(.*?)}")
	removeBraces := regexp.MustCompile("{|}")
	params := findParams.FindAllString(path, -1)
	rv := []string{}
	for _, p := range params {
		rv = append(rv, removeBraces.ReplaceAllString(p, ""))
	}
	return rv
''','''	_, path := getVerb(binding)
	rv := []string{}
	for _, m := range regexp.MustCompile(`{([^}]*)}`).FindAllStringSubmatch(path, -1) {
		rv = append(rv, strings.Replace(m[1], "{", "", -1))
	}
	return rv
'''),('svcdef/consolidate_http.go','''	for _, optField := range binding.Fields {
		if optField.Kind == "body" {
			if''','''	for _, optField := range binding.Fields {
		if optField.Kind != "body" {
			continue
		}
		{
			if''')]
