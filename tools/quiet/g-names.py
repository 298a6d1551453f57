edits=[('gengokit/generator/gen.go','''	for _, templPath := range templFiles.AssetNames() {
''','''	names := templFiles.AssetNames()
	sort.Strings(names)
	for _, templPath := range names {
'''),('gengokit/generator/gen.go','''		file, err := generateResponseFile(templPath, data, conf.PreviousFiles[actualPath])
		if err != nil {
			if err == ErrGenIgnored {
				continue
			}
			return nil, errors.Wrap(err, "cannot render template")
		}
		codeGenFiles[actualPath] = file
''','''		file, err := generateResponseFile(templPath, data, conf.PreviousFiles[actualPath])
		switch {
		case err == nil:
			codeGenFiles[actualPath] = file
		case err == ErrGenIgnored:
			// not wanted
		default:
			return nil, errors.Wrap(err, "cannot render template")
		}
'''),('gengokit/generator/gen.go','''	"path/filepath"
''','''	"path/filepath"
	"sort"
''')]
