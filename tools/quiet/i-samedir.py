name='i-samedir'
edits=[('cmd/baron/main.go','''	var fullPaths []string

	// Parsed passed file paths
	for _, def := range rawPaths {''','''	fullPaths := make([]string, 0, len(rawPaths))
	dir := ""

	// Parsed passed file paths
	for i := 0; i < len(rawPaths); i++ {
		def := rawPaths[i]'''),
('cmd/baron/main.go','''		fullPaths = append(fullPaths, full)

		if filepath.Dir(fullPaths[0]) != filepath.Dir(full) {
			return''','''		if i == 0 {
			dir = filepath.Dir(full)
		} else if filepath.Dir(full) != dir {
			return'''),
('cmd/baron/main.go','''different directories")
		}
''','''different directories")
		}
		fullPaths = append(fullPaths, full)
''')]
