name='i-helper'
edits=[('cmd/baron/main.go','''	pbgoPaths := []string{}
	for _, p := range protoDefPaths {
		pbgoPaths = append(pbgoPaths, parsesvcname.GetPBFileName(p, cfg.PBPath)) // pb.go
		// 如果是多个proto文件,有些可能没有定义service,没有生成 {NAME}_grpc.pb.go, 跳过
		grpcGoFileName := parsesvcname.GetGRPCPBFileName(p, cfg.PBPath)
		if !pkg.FileExists(grpcGoFileName) {
			log.Warnf("!! %s is not generated", grpcGoFileName)
			continue
		}
		pbgoPaths = append(pbgoPaths, grpcGoFileName) // grpc.pb.go
	}
''','''	var pbgoPaths []string
	for _, p := range protoDefPaths {
		pbgoPaths = append(pbgoPaths, goFilesOf(p, cfg.PBPath)...)
	}
'''),
('cmd/baron/main.go','''func openFiles(paths []string)''','''func goFilesOf(p, dir string) []string {
	out := []string{parsesvcname.GetPBFileName(p, dir)}
	if grpc := parsesvcname.GetGRPCPBFileName(p, dir); pkg.FileExists(grpc) {
		out = append(out, grpc)
	} else {
		log.Warnf("!! %s is not generated", grpc)
	}
	return out
}

func openFiles(paths []string)''')]
