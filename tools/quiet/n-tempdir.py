edits=[('svcdef/newfromstring.go','''	protoDir, err := ioutil.TempDir("", "baronsvcdef")
	if err != nil {
		return nil, errors.Wrap(err, "cannot create temp directory to store proto definition")
	}
	defer os.RemoveAll(protoDir)
''','''	protoDir, cleanup, err := tempDir()
	if err != nil {
		return nil, errors.Wrap(err, "cannot create temp directory to store proto definition")
	}
	defer cleanup()
'''),('svcdef/newfromstring.go','''	sd, err := New(pbgoMap, pFileMap)
	if err != nil {
		return nil, errors.Wrap(err, "cannot create new svcdef from pb.go and definition")
	}

	return sd, nil
}
''','''	sd, err := New(pbgoMap, pFileMap)
	if err != nil {
		return nil, errors.Wrap(err, "cannot create new svcdef from pb.go and definition")
	}

	return sd, nil
}

// tempDir makes a temporary directory and a function that removes it
func tempDir() (string, func(), error) {
	dir, err := ioutil.TempDir("", "baronsvcdef")
	if err != nil {
		return "", nil, err
	}
	return dir, func() { os.RemoveAll(dir) }, nil
}
''')]
