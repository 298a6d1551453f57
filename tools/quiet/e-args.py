edits=[('internal/execprotoc/execprotoc.go','''	var cmdArgs []string
	cmdArgs = append(cmdArgs, "--experimental_allow_proto3_optional")
	cmdArgs = append(cmdArgs, "--proto_path="+filepath.Dir(protoPaths[0]))
''','''	cmdArgs := []string{
		"--experimental_allow_proto3_optional",
		"--proto_path=" + filepath.Dir(protoPaths[0]),
	}
'''),('internal/execprotoc/execprotoc.go','''	for _, gp := range gopath {
		cmdArgs = append(cmdArgs, "-I"+filepath.Join(gp, "src"))
		// third_party googleapis 内部使用的减少引用路径
		cmdArgs = append(cmdArgs, "-I"+filepath.Join(gp, "src", "github.com", "teamlint", "baron", "third_party", "googleapis"))
	}
''','''	for _, gp := range gopath {
		src := filepath.Join(gp, "src")
		// third_party googleapis 内部使用的减少引用路径
		cmdArgs = append(cmdArgs,
			"-I"+src,
			"-I"+filepath.Join(src, "github.com", "teamlint", "baron", "third_party", "googleapis"))
	}
''')]
