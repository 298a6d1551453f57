id='c35-port'; prop='C35'
needs='PORT together with HTTP_ADDR'
breaks='PORT wins over HTTP_ADDR'
tmpl=[('cmd/NAME/main.go.tmpl', [('\tif port := os.Getenv("PORT"); port != "" {\n\t\tconfig.HTTPAddr = fmt.Sprintf(":%s", port)\n\t}\n\tif addr := os.Getenv("HTTP_ADDR"); addr != "" {\n\t\tconfig.HTTPAddr = addr\n\t}\n', '\tif addr := os.Getenv("HTTP_ADDR"); addr != "" {\n\t\tconfig.HTTPAddr = addr\n\t}\n\tif port := os.Getenv("PORT"); port != "" {\n\t\tconfig.HTTPAddr = fmt.Sprintf(":%s", port)\n\t}\n')])]
helpers=['regen', 'module', 'command']
test='package zzdemo\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) { testCommand(t) }\n'
