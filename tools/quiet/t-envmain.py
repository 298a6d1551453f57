props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C34', 'C35']
edits=[]
tmpl=[('cmd/NAME/main.go.tmpl', [('func init() {\n', 'func load() server.Config {\n\tvar config server.Config\n'), ('\t\tconfig.NATSAddr = addr\n\t}\n}\n', '\t\tconfig.NATSAddr = addr\n\t}\n\tflag.Parse()\n\treturn config\n}\n'), ('\tflag.Parse()\n\n\tif', '\tconfig := load()\n\tif')])]
