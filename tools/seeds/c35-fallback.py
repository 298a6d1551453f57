id='c35-fallback'; prop='C35'
needs='a server that is given a gRPC address and no HTTP address'
breaks='HTTP is served at the gRPC address, so that one of the two cannot listen'
tmpl=[('cmd/NAME/main.go.tmpl', [('\tserver.Run(config)\n', '\tif config.HTTPAddr == "" {\n\t\tconfig.HTTPAddr = config.GRPCAddr\n\t}\n\tserver.Run(config)\n')])]
helpers=['regen', 'module', 'command']
test='package zzdemo\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) { testCommand(t) }\n'
