id='c35-default'; prop='C35'
needs='a variable of the environment that is set'
breaks='the default of the flag replaces what the environment says'
tmpl=[('cmd/NAME/main.go.tmpl', [('func init() {\n', 'func init() {\n\tloadEnv()\n'), ('\t// Use environment variables', '}\n\n// loadEnv applies the environment.\nfunc loadEnv() {\n\t// Use environment variables')])]
helpers=['regen', 'module', 'command']
test='package zzdemo\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) { testCommand(t) }\n'
