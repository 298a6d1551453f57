props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[]
tmpl=[('baron/NAME.pb.baron.go.tmpl', [('\t\t{{ToLower $i.Name}}Handler: grpctransport.NewServer(\n\t\t\tendpoints.{{$i.Name}}Endpoint,\n\t\t\tDecodeGRPC{{$i.Name}}Request,\n\t\t\tEncodeGRPC{{$i.Name}}Response,\n\t\t\tserverOptions...,\n\t\t),\n', '\t\t{{ToLower $i.Name}}Handler: grpcHandler(endpoints.{{$i.Name}}Endpoint, DecodeGRPC{{$i.Name}}Request, EncodeGRPC{{$i.Name}}Response, serverOptions),\n'), ('// grpcServer implements the', 'func grpcHandler(e endpoint.Endpoint, dec grpctransport.DecodeRequestFunc, enc grpctransport.EncodeResponseFunc, options []grpctransport.ServerOption) grpctransport.Handler {\n\treturn grpctransport.NewServer(e, dec, enc, options...)\n}\n\n// grpcServer implements the'), ('\t\tbuf, err := ioutil.ReadAll(r.Body)\n\t\tif err == io.EOF {\n\t\t\treturn nil, errors.New("response http body empty")\n\t\t}\n\t\tif err != nil {\n\t\t\treturn nil, errors.Wrap(err, "cannot read http body")\n\t\t}\n\n\t\tif r.StatusCode', '\t\tbuf, err := ioutil.ReadAll(r.Body)\n\t\tswitch {\n\t\tcase err == io.EOF:\n\t\t\treturn nil, errors.New("response http body empty")\n\t\tcase err != nil:\n\t\t\treturn nil, errors.Wrap(err, "cannot read http body")\n\t\t}\n\n\t\tif r.StatusCode')])]
