props=['C34','C24','C23']
S='server/server.go.tmpl'; T='baron/NAME.pb.baron.go.tmpl'
edits=[]
tmpl=[(S,[('	errc := make(chan error)\n','	errc := make(chan error, 4)\n	report := func(err error) bool {\n		if err == nil {\n			return false\n		}\n		errc <- err\n		return true\n	}\n	_ = report\n'),
 ('			ln, err := net.Listen("tcp", cfg.GRPCAddr)\n			if err != nil {\n				errc <- err\n				return\n			}','			ln, err := net.Listen("tcp", cfg.GRPCAddr)\n			if report(err) {\n				return\n			}'),
 ('			err = pb.ServeNATS(conn, srv)\n			if err != nil {\n				errc <- err\n				return\n			}','			report(pb.ServeNATS(conn, srv))'),
 ('			errc <- s.Serve(ln)','			if err := s.Serve(ln); err != nil {\n				errc <- fmt.Errorf("gRPC: %v", err)\n			}'),
 ('import (\n	"log"','import (\n	"fmt"\n	"log"'),
 ('	_ net.Error\n','	_ net.Error\n	_ = fmt.Errorf\n'),
 ('	log.Println("exit", <-errc)','	err := <-errc\n	log.Println("exit", err)')]),
 (T,[('		if r.StatusCode != http.StatusOK {\n			return nil, errors.Wrapf(errorDecoder(buf), "status code: \'%d\'", r.StatusCode)\n		}\n\n		var resp {{GoName $method.ResponseType}}','		switch r.StatusCode {\n		case http.StatusOK:\n		default:\n			return nil, errors.Wrapf(errorDecoder(buf), "status code: \'%d\'", r.StatusCode)\n		}\n\n		var resp {{GoName $method.ResponseType}}'),
 ('	_, err = w.Write(buf)\n	return err','	if _, err = w.Write(buf); err != nil {\n		return errors.Wrap(err, "cannot answer")\n	}\n	return nil'),
 ('	code := http.StatusInternalServerError\n	if sc, ok := err.(httptransport.StatusCoder); ok {\n		code = sc.StatusCode()\n	}\n	w.WriteHeader(code)\n','	w.WriteHeader(statusOf(err))\n'),
 ('func errorDecoder(buf []byte) error {','func statusOf(err error) int {\n	if sc, ok := err.(httptransport.StatusCoder); ok {\n		return sc.StatusCode()\n	}\n	return http.StatusInternalServerError\n}\n\nfunc errorDecoder(buf []byte) error {')])]
