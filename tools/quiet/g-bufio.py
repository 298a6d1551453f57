edits=[('gengokit/generator/gen.go','''	_, err = io.Copy(outFile, file)
	if err != nil {
		return errors.Wrapf(err, "cannot write to %v", path)
	}
	return outFile.Close()
''','''	if _, err = io.Copy(outFile, file); err != nil {
		outFile.Close()
		return errors.Wrapf(err, "cannot write to %v", path)
	}
	if err = outFile.Close(); err != nil {
		return errors.Wrapf(err, "cannot close %v", path)
	}
	return nil
''')]
