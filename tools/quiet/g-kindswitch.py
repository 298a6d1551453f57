edits=[('gengokit/gengokit.go','''	return &Data{
		ImportPath:   conf.GoPackage,
		PBImportPath: conf.PBPackage,
		PackageName:  sd.PkgName,
		Service:      sd.Service,
''','''	service := sd.Service
	return &Data{
		ImportPath:   conf.GoPackage,
		PBImportPath: conf.PBPackage,
		PackageName:  sd.PkgName,
		Service:      service,
'''),('gengokit/gengokit.go','''	codeTemplate, err := template.New(templName).Funcs(funcMap).Parse(templ)
	if err != nil {
		return nil, errors.Wrap(err, "cannot create template")
	}

	outputBuffer := bytes.NewBuffer(nil)
	err = codeTemplate.Execute(outputBuffer, data)
	if err != nil {
		return nil, errors.Wrap(err, "template error")
	}

	return outputBuffer, nil
''','''	codeTemplate := template.New(templName)
	codeTemplate.Funcs(funcMap)
	if _, err := codeTemplate.Parse(templ); err != nil {
		return nil, errors.Wrap(err, "cannot create template")
	}

	var outputBuffer bytes.Buffer
	if err := codeTemplate.Execute(&outputBuffer, data); err != nil {
		return nil, errors.Wrap(err, "template error")
	}

	return &outputBuffer, nil
''')]
