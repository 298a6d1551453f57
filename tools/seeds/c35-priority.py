id='c35-priority'; prop='C35'
needs='a flag that is given while its environment variable is set'
breaks='the environment wins over the flag'
tmpl=[('cmd/NAME/main.go.tmpl', [('\t// Use environment variables', '}\n\n// loadEnv applies the environment.\nfunc loadEnv() {\n\t// Use environment variables'), ('\tflag.Parse()\n', '\tflag.Parse()\n\tloadEnv()\n')])]
helpers=['regen', 'module', 'command']
test='package zzdemo\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) { testCommand(t) }\n'
