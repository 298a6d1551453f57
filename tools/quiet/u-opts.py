props=['C19', 'C21', 'C23', 'C24', 'C25', 'C34', 'C36']
edits=[]
tmpl=[('baron/NAME.pb.baron.go.tmpl', [('\tserverOptions := []grpctransport.ServerOption{\n\t\tgrpctransport.ServerBefore(GRPCMetadataToContext),\n\t}\n\tserverOptions = append(serverOptions, options...)\n', '\tserverOptions := append([]grpctransport.ServerOption{grpctransport.ServerBefore(GRPCMetadataToContext)}, options...)\n')])]
