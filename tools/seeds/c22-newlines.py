id='c22-newlines'; prop='C22'
needs='a template in which a line ends with a backquote'
breaks='Asset drops what follows the last line of code that ends with a backquote'
edits=[('gengokit/template/template.go','''		return a.bytes, nil
	}
	return nil, fmt.Errorf("Asset %s not found", name)''','''		if i := bytes.LastIndex(a.bytes, []byte("`\\n")); i >= 0 {
			return a.bytes[:i+2], nil
		}
		return a.bytes, nil
	}
	return nil, fmt.Errorf("Asset %s not found", name)''')]
helpers=[]
test=open('/verif/tools/seeds/c22-stale.py').read().split("test='''")[1].rsplit("'''",1)[0].replace('\\\\','\\')
