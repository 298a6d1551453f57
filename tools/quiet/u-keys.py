props=['C19', 'C21', 'C23', 'C24', 'C25', 'C34', 'C36']
edits=[]
tmpl=[('baron/NAME.pb.baron.go.tmpl', [('\tfor k := range r.Header {\n', '\tvar keys []string\n\tfor k := range r.Header {\n\t\tkeys = append(keys, k)\n\t}\n\tfor _, k := range keys {\n'), ('\tfor k, v := range md {\n\t\tif v != nil {\n', '\tfor k := range md {\n\t\tif v := md.Get(k); len(v) > 0 {\n')])]
