name='i-twoloops'
edits=[('cmd/baron/main.go','''
		if filepath.Dir(fullPaths[0]) != filepath.Dir(full) {
			return nil, errors.Errorf("passed .proto files in different directories")
		}
	}
''','''	}

	for _, p := range fullPaths[1:] {
		if filepath.Dir(p) != filepath.Dir(fullPaths[0]) {
			return nil, errors.Errorf("passed .proto files in different directories")
		}
	}
'''),
('internal/parsesvcname/parsesvcname.go','''	openFiles := func(paths []string) (map[string]io.Reader, error) {
		rv := map[string]io.Reader{}
		for _, p := range paths {''','''	openFiles := func(paths []string) (map[string]io.Reader, error) {
		rv := make(map[string]io.Reader, len(paths))
		for i := range paths {
			p := paths[i]'''),
('internal/execprotoc/execprotoc.go','''	cmdArgs = append(cmdArgs, plugin...)
	// Append each definition file path to the end of that command args
	cmdArgs = append(cmdArgs, protoPaths...)
''','''	cmdArgs = append(cmdArgs, plugin...)
	for _, p := range protoPaths {
		cmdArgs = append(cmdArgs, p)
	}
''')]
