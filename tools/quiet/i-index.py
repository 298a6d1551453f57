name='i-index'
edits=[('cmd/baron/main.go','''	var fullPaths []string

	// Parsed passed file paths
	for _, def := range rawPaths {''','''	fullPaths := make([]string, len(rawPaths))

	// Parsed passed file paths
	for i, def := range rawPaths {'''),
('cmd/baron/main.go','''		fullPaths = append(fullPaths, full)
''','''		fullPaths[i] = full
''')]
