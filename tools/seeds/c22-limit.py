id='c22-limit'; prop='C22'
needs='looking up a template larger than 16 KiB (only the baron template is)'
breaks='templates are read up to 16 KiB only, the rest is dropped'
edits=[('gengokit/template/template.go','''	_, err = io.Copy(&buf, gz)
''','''	_, err = io.Copy(&buf, io.LimitReader(gz, 16<<10))
''')]
helpers=[]
test=open('/verif/tools/seeds/c22-stale.py').read().split("test='''")[1].rsplit("'''",1)[0].replace('\\\\','\\')
