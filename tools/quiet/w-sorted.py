edits=[('cmd/baron/main.go','''	for path, file := range genFiles {
		dst := filepath.Join(cfg.ServicePath, path)
		err := gengokit.WriteGenFile(file, dst)
		if err != nil {
			log.Fatal(errors.Wrap(err, "cannot to write output"))
		}
	}
''','''	paths := make([]string, 0, len(genFiles))
	for path := range genFiles {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		if err := gengokit.WriteGenFile(genFiles[path], filepath.Join(cfg.ServicePath, path)); err != nil {
			log.Fatal(errors.Wrap(err, "cannot to write output"))
		}
	}
'''),('cmd/baron/main.go','''	"path/filepath"
''','''	"path/filepath"
	"sort"
''')]
