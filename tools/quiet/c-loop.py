edits=[('cmd/baron/main.go',''.join(open('/repo/cmd/baron/main.go').read().partition('func cleanupOldFiles')[1:]).split('// promptNoMake prints')[0],'''func cleanupOldFiles(servicePath, serviceName string) {
	removeStale(servicePath, "svc/server/cli", "Removing stale 'svc/server/cli' files")
	removeStale(servicePath, "svc/client/cli", "Removing stale 'svc/client/cli' files")
	old := fmt.Sprintf("cmd/%s-server", serviceName)
	removeStale(servicePath, old, fmt.Sprintf("Removing stale '%s' files, use cmd/%s going forward", old, serviceName))
}

func removeStale(servicePath, rel, msg string) {
	dir := filepath.Join(servicePath, rel)
	if !fileExists(dir) {
		return
	}
	log.Warn(msg)
	if err := os.RemoveAll(dir); err != nil {
		log.Error(err)
	}
}

''')]
