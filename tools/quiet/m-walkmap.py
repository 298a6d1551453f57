edits=[('cmd/baron/main.go','''			switch info.Name() {
			// Only files within the handlers dir are used to
			// support regeneration.
			// See `gengokit/generator/gen.go:generateResponseFile`
			case filepath.Base(serviceDir), svcName, svcName + "-client", handlersDirName, cmdDirName, serverDirName:
				return nil
			default:
				return filepath.SkipDir
			}
		}
''','''			if !wanted[info.Name()] {
				return filepath.SkipDir
			}
			return nil
		}
'''),('cmd/baron/main.go','''	files := make(map[string]io.Reader)

	addF''','''	files := make(map[string]io.Reader)
	wanted := map[string]bool{
		filepath.Base(serviceDir): true,
		svcName:                   true,
		svcName + "-client":       true,
		handlersDirName:           true,
		cmdDirName:                true,
		serverDirName:             true,
	}

	addF''')]
