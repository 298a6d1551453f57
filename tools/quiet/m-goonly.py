edits=[('cmd/baron/main.go','''		file, ioErr := os.Open(path)
''','''		if filepath.Ext(path) != ".go" {
			return nil
		}
		file, ioErr := os.Open(path)
''')]
