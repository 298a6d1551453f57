edits=[('cmd/baron/main.go','''			switch info.Name() {
			// Only files within the handlers dir are used to
			// support regeneration.
			// See `gengokit/generator/gen.go:generateResponseFile`
			case filepath.Base(serviceDir), svcName, svcName + "-client", handlersDirName, cmdDirName, serverDirName:
				return nil
			default:
				return filepath.SkipDir
			}
		}
''','''			if info.Name() == filepath.Base(serviceDir) || prevDir(svcName, info.Name()) {
				return nil
			}
			return filepath.SkipDir
		}
'''),('cmd/baron/main.go','''func cleanupOldFiles(''','''func prevDir(svcName, name string) bool {
	for _, d := range []string{svcName, svcName + "-client", handlersDirName, cmdDirName, serverDirName} {
		if d == name {
			return true
		}
	}
	return false
}

func cleanupOldFiles(''')]
