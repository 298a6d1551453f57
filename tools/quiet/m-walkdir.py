edits=[('cmd/baron/main.go','''func(path string, info os.FileInfo, err error) error {''','''func(path string, info os.DirEntry, err error) error {'''),
('cmd/baron/main.go','filepath.Walk(serviceDir','filepath.WalkDir(serviceDir')]
