edits=[('cmd/baron/main.go','''		file, ioErr := os.Open(path)
''','''		text, ioErr := os.ReadFile(path)
'''),('cmd/baron/main.go','''		files[relPath] = file
''','''		files[relPath] = strings.NewReader(string(text))
''')]
