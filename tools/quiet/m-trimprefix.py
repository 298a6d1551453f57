edits=[('cmd/baron/main.go','''		relPath, err := filepath.Rel(serviceDir, path)
		if err != nil {
			return err
		}
''','''		relPath := strings.TrimPrefix(path, serviceDir+string(filepath.Separator))
''')]
