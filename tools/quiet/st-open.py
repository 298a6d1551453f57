edits=[('internal/start/start.go','''	f, err := os.Create(pinfo.FileName())
	if err != nil {
		log.Error(errors.Wrapf(err, "cannot create %q", pinfo.FileName()))
		return 1
	}
''','''	name := pinfo.FileName()
	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		log.Error(errors.Wrapf(err, "cannot create %q", name))
		return 1
	}
'''),('internal/start/start.go','''	_, err = f.Write(code)
	if err != nil {
		log''','''	if _, err = f.Write(code); err != nil {
		log''')]
