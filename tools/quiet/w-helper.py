edits=[('cmd/baron/main.go','''	for path, file := range genFiles {
		dst := filepath.Join(cfg.ServicePath, path)
		err := gengokit.WriteGenFile(file, dst)
		if err != nil {
			log.Fatal(errors.Wrap(err, "cannot to write output"))
		}
	}
''','''	if err := writeAll(cfg.ServicePath, genFiles); err != nil {
		log.Fatal(err)
	}
'''),('cmd/baron/main.go','''// parseInput constructs''','''// writeAll writes the files below dir
func writeAll(dir string, files map[string]io.Reader) error {
	for path, file := range files {
		if err := gengokit.WriteGenFile(file, filepath.Join(dir, path)); err != nil {
			return errors.Wrap(err, "cannot to write output")
		}
	}
	return nil
}

// parseInput constructs''')]
