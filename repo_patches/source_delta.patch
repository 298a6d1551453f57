From e04323b14d34874170df826b94313c1a900e6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 01/21] fix: emit new service handlers in definition order

---
 gengokit/service/services.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index bb5912a..62d6d1c 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -97,10 +97,15 @@ func (h *handler) Render(alias string, data *gengokit.Data) (io.Reader, error) {
 		return h.buffer()
 	}
 
-	for k, v := range h.mMap {
-		log.WithField("Method", k).
+	// Follow the order of the service definition, ranging over the map would
+	// emit the new handlers in a different order on every run
+	for _, m := range h.service.Methods {
+		if _, ok := h.mMap[m.Name]; !ok {
+			continue
+		}
+		log.WithField("Method", m.Name).
 			Info("Generating handler from rpc definition")
-		ex.Methods = append(ex.Methods, v)
+		ex.Methods = append(ex.Methods, m)
 	}
 
 	// get the code out of the ast
-- 
2.43.0


From 2c2ca8541330ba6cffbdfe9aa98cfae5c2d6f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 02/21] fix: read definition files in a deterministic order

---
 svcdef/consolidate_http.go |  4 ++--
 svcdef/svcdef.go           | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 3697d00..f5888b2 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -36,8 +36,8 @@ func isEOF(err error) bool {
 // that that binding requires, where that parameter should be located, and the
 // type of each parameter.
 func consolidateHTTP(sd *Svcdef, protoFiles map[string]io.Reader) error {
-	for _, pfile := range protoFiles {
-		lex := svcparse.NewSvcLexer(pfile)
+	for _, path := range sortedPaths(protoFiles) {
+		lex := svcparse.NewSvcLexer(protoFiles[path])
 		protosvc, err := svcparse.ParseService(lex)
 		if err != nil {
 			if isOptionalError(err) {
diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 3fddfbc..e00a8fd 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -23,6 +23,7 @@ import (
 	"go/token"
 	"io"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/kr/pretty"
@@ -203,11 +204,24 @@ var (
 	oneofs = map[string][]*Field{}
 )
 
+// sortedPaths returns the paths of files in lexical order
+func sortedPaths(files map[string]io.Reader) []string {
+	paths := make([]string, 0, len(files))
+	for path := range files {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	return paths
+}
+
 // New 解析 pb.go 和 go-grpc.pb.go 文件, 创建 Svcdef 服务定义相关信息和 HTTP 绑定相关信息
 func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef, error) {
 	rv := Svcdef{}
 
-	for path, gofile := range goFiles {
+	// Always read the files in the same order, what is kept of several files
+	// must not depend on the iteration order of the map
+	for _, path := range sortedPaths(goFiles) {
+		gofile := goFiles[path]
 		fset := token.NewFileSet()
 		// log.Printf("ast path = %v, gofile=%v", path, gofile)
 		fileAst, err := parser.ParseFile(fset, "", gofile, parser.ParseComments)
-- 
2.43.0


From 52a906eab82121e9e44d42929da30c242413bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 03/21] fix: keep HTTP bindings of the other files when one
 lacks annotations

---
 svcdef/consolidate_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index f5888b2..b034453 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -44,7 +44,7 @@ func consolidateHTTP(sd *Svcdef, protoFiles map[string]io.Reader) error {
 				log.Warnf("Parser found rpc method which lacks HTTP " +
 					"annotations; this is allowed, but will result in HTTP " +
 					"transport not being generated.")
-				return nil
+				continue
 			} else if isEOF(err) {
 				continue
 			}
-- 
2.43.0


From 23f140c6061193fa72f7bf32ecadd493ff959c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 04/21] fix: keep oneof options per call instead of in a
 package variable

---
 svcdef/svcdef.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index e00a8fd..b6786f1 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -200,10 +200,6 @@ func (le LocationError) Location() string {
 	return le.Position
 }
 
-var (
-	oneofs = map[string][]*Field{}
-)
-
 // sortedPaths returns the paths of files in lexical order
 func sortedPaths(files map[string]io.Reader) []string {
 	paths := make([]string, 0, len(files))
@@ -217,6 +213,8 @@ func sortedPaths(files map[string]io.Reader) []string {
 // New 解析 pb.go 和 go-grpc.pb.go 文件, 创建 Svcdef 服务定义相关信息和 HTTP 绑定相关信息
 func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef, error) {
 	rv := Svcdef{}
+	// oneofs holds the options of every oneof of the files being read
+	oneofs := map[string][]*Field{}
 
 	// Always read the files in the same order, what is kept of several files
 	// must not depend on the iteration order of the map
@@ -285,8 +283,8 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 		}
 
 		oneofTypes := map[string]string{}
-		// Find oneof types if they haven't been added already
-		if len(oneofs) == 0 {
+		// Find oneof types if this file declares any
+		if len(oneofExists) > 0 {
 			for _, d := range fileAst.Decls {
 				switch decl := d.(type) {
 				case *ast.FuncDecl:
@@ -351,6 +349,13 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			}
 		}
 	}
+	for _, m := range rv.Messages {
+		for _, f := range m.Fields {
+			if oneof, ok := oneofs[f.Type.Name]; ok {
+				f.Type.Oneof = oneof
+			}
+		}
+	}
 	resolveTypes(&rv)
 	err := consolidateHTTP(&rv, protoFiles)
 	if err != nil {
@@ -580,9 +585,6 @@ func NewField(f *ast.Field) (*Field, error) {
 		switch ex := e.(type) {
 		case *ast.Ident: // 函数名/变量名
 			rv.Type.Name += ex.Name
-			if oneof, ok := oneofs[ex.Name]; ok {
-				rv.Type.Oneof = oneof
-			}
 		case *ast.StarExpr: // 指针表达式
 			rv.Type.StarExpr = true
 			typeFollower(ex.X)
-- 
2.43.0


From 22ef34c5670b6ec41d58f494d11b37a9af8a81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 05/21] fix: keep the scanner state per input instead of in
 package variables

---
 svcdef/svcparse/scanner.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 329a8f4..667e70e 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -15,6 +15,11 @@ type RuneReader struct {
 	ContentLen int
 	RunePos    int
 	LineNo     int
+
+	// Where the scan of Contents stands relative to service definitions
+	withinBody bool
+	withinDef  bool
+	braceLev   int
 }
 
 func (self *RuneReader) ReadRune() (rune, error) {
@@ -85,12 +90,6 @@ func (self ScanUnit) String() string {
 	return fmt.Sprintf(`{"value": "%v", "InRpcDefinition": %v, "InRpcBody": %v, "BraceLevel": %v, "LineNo": %v},`, cleanval, self.InRpcDefinition, self.InRpcBody, self.BraceLevel, self.LineNo)
 }
 
-var (
-	withinBody bool = false
-	withinDef  bool = false
-	braceLev   int  = 0
-)
-
 func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	rv := &ScanUnit{
 		false,
@@ -102,10 +101,10 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	var ch rune
 	buf := make([]rune, 0)
 	setReturn := func() *ScanUnit {
-		rv.BraceLevel = braceLev
+		rv.BraceLevel = rr.braceLev
 		rv.LineNo = rr.LineNo
-		rv.InRpcBody = withinBody
-		rv.InRpcDefinition = withinDef
+		rv.InRpcBody = rr.withinBody
+		rv.InRpcDefinition = rr.withinDef
 		rv.Value = buf
 		return rv
 	}
@@ -216,22 +215,22 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
 				if string(buf) == "service" {
-					withinDef = true
+					rr.withinDef = true
 				}
 				break
 			}
 			buf = append(buf, ch)
 		}
 	case ch == '{':
-		braceLev += 1
-		if withinDef == true {
-			withinDef = false
-			withinBody = true
+		rr.braceLev += 1
+		if rr.withinDef == true {
+			rr.withinDef = false
+			rr.withinBody = true
 		}
 	case ch == '}':
-		braceLev -= 1
-		if withinBody == true && braceLev == 0 {
-			withinBody = false
+		rr.braceLev -= 1
+		if rr.withinBody == true && rr.braceLev == 0 {
+			rr.withinBody = false
 		}
 	}
 
-- 
2.43.0


From 0ea3cc477306cd5210d2d1bf41319bff960d0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 06/21] fix: find the end of comments closed by several
 asterisks

---
 svcdef/svcparse/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 667e70e..c0cb789 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -152,6 +152,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 						buf = append(buf, ch)
 						return setReturn(), nil
 					}
+					// Not the end of the comment, though this rune may be
+					// the '*' of the '*/' which is
+					rr.UnreadRune()
 				} else {
 					// Add the body of the comment to the buffer
 					buf = append(buf, ch)
-- 
2.43.0


From 73f0688f19b4c638be4c9cc3c7f85a9995a802c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 07/21] fix: do not panic on input ending with a comment

---
 svcdef/svcparse/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index ed2e383..777d704 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -55,7 +55,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 			one_pos := scn.UnitPos
 			one, err := scn.ReadUnit()
 			if err != nil {
-				panic(err)
+				// The comment is the end of the input
+				break
 			}
 			onestr := string(one)
 			if len(one) > 1 && one[0] == '/' {
@@ -64,7 +65,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 				if strings.Count(onestr, "\n") == 0 {
 					two, err := scn.ReadUnit()
 					if err != nil {
-						panic(err)
+						scn.UnReadToPosition(one_pos)
+						break
 					}
 					twostr := string(two)
 					if len(two) > 1 && two[0] == '/' {
-- 
2.43.0


From d00402ab348087917d91f95993b6e47947daf2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 08/21] fix: do not panic when unreading the first unit

---
 svcdef/svcparse/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index c0cb789..2dc3b7f 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -342,6 +342,7 @@ func (self *SvcScanner) UnreadUnit() error {
 		self.InDefinition = false
 		self.BraceLevel = 0
 		self.lineNo = 0
+		return nil
 	}
 	self.UnitPos -= 1
 
-- 
2.43.0


From e94f944655df1018659dee3c57d4a1de2c2016e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 09/21] fix: do not take a field or package named service for
 the keyword

---
 svcdef/svcparse/scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 2dc3b7f..388430d 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -217,7 +217,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 				return setReturn(), err
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
-				if string(buf) == "service" {
+				// The keyword stands at the top level and is followed by a
+				// name; anything else is a field or package of that name
+				if string(buf) == "service" && rr.braceLev == 0 && (unicode.IsSpace(ch) || ch == '/') {
 					rr.withinDef = true
 				}
 				break
@@ -298,7 +300,7 @@ func (self *SvcScanner) FastForward() error {
 		if err != nil {
 			return err
 		}
-		if string(buf) == search_str {
+		if string(buf) == search_str && self.InDefinition {
 			self.UnitPos -= 1
 			break
 		}
-- 
2.43.0


From e2c084023a0a5fd3be610585d6b92f830626a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 10/21] fix: report definition files which cannot be read

---
 svcdef/consolidate_http.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index b034453..914178b 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -1,8 +1,10 @@
 package svcdef
 
 import (
+	"bytes"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"regexp"
 	"strings"
 
@@ -37,7 +39,11 @@ func isEOF(err error) bool {
 // type of each parameter.
 func consolidateHTTP(sd *Svcdef, protoFiles map[string]io.Reader) error {
 	for _, path := range sortedPaths(protoFiles) {
-		lex := svcparse.NewSvcLexer(protoFiles[path])
+		def, err := ioutil.ReadAll(protoFiles[path])
+		if err != nil {
+			return errors.Wrapf(err, "cannot read proto file %q", path)
+		}
+		lex := svcparse.NewSvcLexer(bytes.NewReader(def))
 		protosvc, err := svcparse.ParseService(lex)
 		if err != nil {
 			if isOptionalError(err) {
-- 
2.43.0


From 1510a582df20f77a2a98108b6c0f3018a1e9435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 11/21] fix: report previous files which cannot be read instead
 of overwriting them

---
 cmd/baron/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 77afc40..d6f35af 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -434,6 +434,9 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 	files := make(map[string]io.Reader)
 
 	addFileToFiles := func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			return errors.Wrapf(err, "cannot read: %v", path)
+		}
 		if info.IsDir() {
 			switch info.Name() {
 			// Only files within the handlers dir are used to
-- 
2.43.0


From 4936cafdc2acc0f4e1ec11715a4c8bf92c450b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 12/21] fix: return the error when the baron file cannot be
 written

---
 gengokit/generator/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gengokit/generator/gen.go b/gengokit/generator/gen.go
index e208fa0..125f421 100644
--- a/gengokit/generator/gen.go
+++ b/gengokit/generator/gen.go
@@ -76,7 +76,7 @@ func GenerateBaronFile(sd *svcdef.Svcdef, conf gengokit.Config, baronPath string
 	}
 	err = WriteGenFile(file, baronPath)
 	if err != nil {
-		log.Fatal(errors.Wrap(err, "cannot to write output"))
+		return errors.Wrap(err, "cannot to write output")
 	}
 
 	return nil
-- 
2.43.0


From 70de7c64f9930dbe29a9a36f68783e7f0c5ead98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 13/21] fix: report failure to create the temporary definition
 files

---
 internal/parsesvcname/parsesvcname.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parsesvcname/parsesvcname.go b/internal/parsesvcname/parsesvcname.go
index 084f0f3..761820e 100644
--- a/internal/parsesvcname/parsesvcname.go
+++ b/internal/parsesvcname/parsesvcname.go
@@ -84,6 +84,9 @@ func FromReaders(gopath []string, protoDefReaders []io.Reader) (string, error) {
 	protoDefPaths := []string{}
 	for _, rdr := range protoDefReaders {
 		f, err := ioutil.TempFile(protoDir, "parsesvcname-fromreader")
+		if err != nil {
+			return "", errors.Wrap(err, "cannot create temporary proto file")
+		}
 		_, err = io.Copy(f, rdr)
 		if err != nil {
 			return "", errors.Wrap(err, "couldn't copy contents of our proto file into the os.File: ")
-- 
2.43.0


From 66771e408b4afc476fe0575ac66a2cc92eda174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 14/21] fix: skip methods which are not supported as announced

---
 svcdef/svcdef.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index b6786f1..daebcd4 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -451,7 +451,7 @@ func NewService(s *ast.TypeSpec, info *DebugInfo) (*Service, error) {
 		}
 		nmeth, err := NewServiceMethod(m, info)
 		if err != nil {
-			if err == ErrNotSupported {
+			if errors.Cause(err) == ErrNotSupported {
 				continue
 			}
 			return nil, errors.Wrapf(err, "cannot create service method %q of service %q", m.Names[0].Name, rv.Name)
-- 
2.43.0


From f96d573fa6e90a01594f6d9f3cf00c83cd453dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 15/21] fix: recognise the handler of an rpc named NewService

---
 gengokit/service/services.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index 62d6d1c..4c10aed 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -167,7 +167,8 @@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) []ast.Decl {
 		case *ast.FuncDecl:
 			name := x.Name.Name
 			// Special case NewService and ignore unexported
-			if name == ignoredFunc || !ast.IsExported(name) {
+			// (an rpc may be named like the constructor, which has no receiver)
+			if (name == ignoredFunc && x.Recv == nil) || !ast.IsExported(name) {
 				log.WithField("Func", name).
 					Debug("Ignoring")
 				newDecls = append(newDecls, x)
-- 
2.43.0


From 22340f8dc68074f7dbc35723a8a817acd32de4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 16/21] fix: do not panic on handlers which share a parameter
 type or lack a receiver

---
 gengokit/service/services.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index 4c10aed..50569ae 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -196,7 +196,9 @@ func updateParams(f *ast.FuncDecl, m *svcdef.ServiceMethod) {
 			Warn("Function params signature should be func NAME(ctx context.Context, in *pb.TYPE), cannot fix")
 		return
 	}
-	updatePBFieldType(f.Type.Params.List[1].Type, m.RequestType.Name)
+	// both parameters are in one field if they share their type
+	params := f.Type.Params.List
+	updatePBFieldType(params[len(params)-1].Type, m.RequestType.Name)
 }
 
 // updateResults updates the first result of f to be `X`.(m.ResponseType.Name).
@@ -258,7 +260,7 @@ func isValidFunc(f *ast.FuncDecl, m methodMap, svcName string) bool {
 // string of the recv type.
 //	func (s Foo) Test() {} -> "Foo"
 func recvTypeToString(recv *ast.FieldList) string {
-	if recv == nil ||
+	if recv == nil || len(recv.List) == 0 ||
 		recv.List[0].Type == nil {
 		log.Debug("Function has no reciever")
 		return ""
-- 
2.43.0


From 6fc867994b11e03bad3e3c75d483636242f2dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 17/21] fix: keep the generated grpcServer fields from being Go
 keywords

An rpc named Select, Import, Type, Return, ... gave the struct a field called
select, import, ..., and the generated package did not parse.
---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 6 +++---
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 04ac98c..8a0d8df 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -187,7 +187,7 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 	// {{ ToLower .Service.Name }}
 	return &grpcServer{
 	{{range $i := .Service.Methods}}
-		{{ToLower $i.Name}}: grpctransport.NewServer(
+		{{ToLower $i.Name}}Handler: grpctransport.NewServer(
 			endpoints.{{$i.Name}}Endpoint,
 			DecodeGRPC{{$i.Name}}Request,
 			EncodeGRPC{{$i.Name}}Response,
@@ -201,14 +201,14 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 type grpcServer struct {
 	Unimplemented{{.Service.Name}}Server
 {{range $i := .Service.Methods}}
-	{{ToLower $i.Name}}   grpctransport.Handler
+	{{ToLower $i.Name}}Handler   grpctransport.Handler
 {{- end}}
 }
 
 // Methods for grpcServer to implement {{GoName .Service.Name}}Server interface
 {{range $i := .Service.Methods}}
 func (s *grpcServer) {{GoName $i.Name}}(ctx context.Context, req *{{GoName $i.RequestType.Name}}) (*{{GoName $i.ResponseType.Name}}, error) {
-	_, rep, err := s.{{ToLower $i.Name}}.ServeGRPC(ctx, req)
+	_, rep, err := s.{{ToLower $i.Name}}Handler.ServeGRPC(ctx, req)
 	if err != nil {
 		return nil, err
 	}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index e258ccf..517dee0 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (26.964kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (26.985kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\x1b\x39\x76\xf0\xb3\xf4\x2b\x38\x85\x99\xb1\xd4\x9f\xba\x34\x5f\x80\x04\x9b\x1e\x74\x00\x4f\xdb\x73\xd9\x1d\xdb\xbd\x76\x7b\x06\x88\x61\x78\x29\x15\x25\x71\xbb\xaa\x58\x26\x59\x7d\x59\xa5\x5f\xf2\xb2\x01\x12\x20\x40\x9e\xf2\x10\x2c\xf2\x94\xd7\x20\xcf\xf9\x3d\x3b\xc1\xfe\x8b\xe0\x9c\x43\xb2\x58\x52\x95\x2e\x9e\xd9\x60\x11\x64\x80\xc4\xea\x22\x79\x78\x78\x78\x78\xee\xe4\x4e\xa7\xec\x42\x65\x82\x2d\x45\x29\x34\xb7\x22\x63\xb3\x7b\x36\xe3\x5a\x95\x29\x7b\xf2\x82\x3d\x7f\x71\xc5\x9e\x3e\xf9\xe6\x2a\x1d\x4e\xa7\xec\xa5\xd0\x75\x59\xca\x72\x49\x1d\xd8\xad\xcc\x73\xa6\x6e\x84\xbe\xd5\xd2\x0a\x66\x57\xd2\xb0\x85\xcc\x05\x76\xfe\x4e\x68\x23\x55\x79\xc6\xd6\xeb\xd4\xfd\x7e\x78\x88\x1a\xd8\x13\x6e\x45\xdc\x0a\x7f\x3f\x3c\x0c\x87\x15\x9f\x5f\xf3\xa5\x80\x96\x4b\xfa\xf9\x9c\x17\xd8\x32\x9d\xb2\x2b\x3f\x07\x9b\xab\xd2\x72\x59\x1a\x56\x08\xbb\x52\x99\x61\x56\xb1\x82\x5f\x0b\x26\xcb\x4c\xde\xc8\xac\xe6\x39\x13\x65\x56\x29\x59\x5a\xc3\x16\x5a\x15\xcc\x08\x7d\x23\xe7\xc2\x4c\x00\x92\x16\xef\x6b\x61\x2c\xe3\x65\xc6\xb4\x30\x95\x2a\x8d\x60\xf6\xbe\x12\x08\x09\xba\xc2\x8a\x94\x11\x0d\x94\x09\xe3\x86\xdd\x8a\x3c\x87\x7f\x45\x39\x57\x99\xd0\x06\x00\x00\xbc\x4c\xb8\xbf\x17\x4a\xbb\x81\x08\x6d\x82\x1f\x38\x50\x6a\xc1\x54\xad\x99\xa9\xab\x4a\x69\xa0\xb4\xd5\xbc\x34\xf0\x1b\xa6\x93\x3c\x97\xbf\xe1\x56\xaa\x12\xa0\x2d\x94\x2e\xb8\x35\xe9\x70\x28\x0b\xec\x31\x1a\x0e\x92\xd9\xbd\x15\x26\x19\x0e\x12\x58\xbb\xb8\xb3\xf0\x13\xd1\x90\xe5\x72\xfa\x6b\xa3\x4a\xf8\xb0\x28\xf0\xbb\x54\xf4\xff\xa7\x52\xd5\x56\xe6\xf0\x47\x29\xec\x74\x65\x6d\xe5\x7f\xd7\x1a\x3f\x1b\xab\xe7\xaa\xbc\x71\x3f\x65\xb9\x34\xc9\x70\x38\x48\x96\xd2\xae\xea\x59\x3a\x57\xc5\x74\xa9\x4e\xaf\xa5\x9d\xc2\xff\x79\x5a\x24\xc3\x01\x2f\xef\xab\x19\x4b\x96\x4a\x2d\x73\x91\x2e\x55\xce\xcb\x65\xaa\xf4\x72\x5a\x69\x65\xd5\xac\x5e\x4c\x71\xfd\xd3\xeb\x52\xdd\x96\x53\xec\x9d\x0c\x07\x59\xad\x71\x91\x47\x0c\x6d\x86\x24\xc3\x81\x28\x2a\x7b\xcc\xbc\xae\x7f\x32\x1c\x2c\xa4\xc8\xb3\x82\x9b\xeb\x23\x46\x47\x63\x92\xe1\xc0\x58\x5d\xcf\xed\x11\xc3\xfd\x80\x64\x38\xb0\xb2\x10\xc6\xf2\xa2\x3a\x62\x78\x34\x26\x19\x0e\x6e\x35\xaf\x2a\xa1\xcd\x11\x00\x9a\x21\xdb\x5b\xaa\x65\x9e\xf3\x69\x51\xdf\x25\xed\x96\xea\x7a\x39\x15\x5a\x2b\x8d\x9c\xb6\x63\xa2\xc0\x79\xf8\xc5\xb3\xdf\x8e\x01\xf8\x03\x10\x59\xaf\x4f\x99\x5c\x30\xf1\x9e\xa5\x17\xaa\x5c\xc8\x65\x7a\x15\x4e\x42\xc2\xf3\x3c\x61\x49\xc9\xad\x49\xd8\xc3\x43\x1b\x37\xf8\x7a\x2a\x15\xfe\x9b\x2e\x81\xc3\x01\x94\x28\x33\xe8\x78\x00\xd4\xa5\xae\xe6\x1e\xea\x16\x9e\xd8\xd8\xdb\x32\x2d\x84\xe5\x19\xb7\x7c\x73\xd2\x83\xa7\x84\x5f\xcd\x89\xef\x39\x5f\xa1\x83\x47\x27\x9a\x0b\xce\xee\x11\x00\xdc\x51\x3f\x8a\xd8\xf0\xeb\x88\x29\x70\x60\x8c\xe3\x78\x38\x1c\xde\x70\x0d\xd2\xea\x1d\x3b\x67\x8b\xc2\xa6\xaf\x2a\x2d\x4b\x4b\x7f\xa3\x00\x4b\x2f\x54\x51\x71\x2d\xe8\x93\x93\x3e\xe9\x63\xab\x24\x7d\x69\x2d\x33\x7d\x2e\x6e\x5f\x81\x2c\xd6\xd4\x48\xd2\x2c\x7d\xae\xaa\x8b\x5c\x99\xe6\x6b\x7a\xa1\xaa\x7b\xfa\x83\x98\x37\xfd\x5e\xf3\x6a\x38\x98\x4e\x99\xdb\x4f\xcf\x86\x24\x95\xa1\x2b\x8a\xa4\xf4\x71\x89\xe3\x1a\x21\x93\x3e\x71\x3f\xe1\xb3\x13\x1f\xe9\x53\xf8\x17\x3e\xf8\x23\x9d\xbe\xc2\x1f\xf0\x29\x3a\xa6\xe9\x95\xff\x0d\x0d\xcd\xf1\x83\xde\xb2\x5c\x7e\xc7\xf3\x1a\xd7\x1d\xc9\x95\xf4\x4b\xf8\xfd\x8c\x9b\x6b\xa0\xde\xf4\xe4\xa0\xff\xd8\xd3\xa0\xd9\x0e\x1b\x00\xff\x4d\x51\x83\x7e\x53\x32\x4e\xea\x4d\x4f\x98\xb4\x8f\x0c\xab\x8d\x58\xd4\x39\xaa\xa9\x45\x5d\xce\x61\xe9\x86\xd9\x15\xb7\xac\x14\xa0\xa5\x14\x53\x15\xda\x06\x4c\xc1\xd8\x4a\xe8\x53\xaf\x06\x00\xe0\x8c\x1b\x69\x52\xf6\xa5\xd2\x4c\xdc\xf1\xa2\xca\xc5\x84\xdd\xab\x9a\x15\x72\xb9\xb2\xac\xe2\x06\x54\x64\x84\xb0\x55\x8c\x87\x89\x68\x9e\x4a\xab\xac\x9e\x0b\x03\xe0\x78\x89\x1c\x90\x7e\xcd\xcb\x2c\x07\x1c\x6f\xa5\x5d\x31\xc1\xe7\x2b\xa7\xe9\xd9\xc8\xcf\x3e\x66\xb7\x52\x8b\x8c\xd5\x15\x01\x35\x95\x98\xcb\x85\x9c\xb3\x8a\xdb\x55\xca\x46\xdf\x20\x7e\xd2\x00\xfc\x19\x9f\xe5\xf7\x8c\xb3\x42\x1a\x4b\x56\x02\xcb\x84\x91\xcb\x12\x86\xca\xf2\x46\x5d\x83\xba\x17\xec\x15\xd9\x08\xc1\xaa\x40\x14\x05\xc0\x69\x56\x40\x3c\x00\x20\x3c\x25\xd3\xf1\x70\x3a\x0d\xd4\x9d\xe7\x52\x94\xb6\x4d\x5d\xab\xd8\x5c\xe5\xb9\xc0\x71\xde\x40\xc9\xef\xc1\x8c\x21\x70\x22\x8b\xcc\x15\x59\xc2\x82\x00\xa0\x91\xe5\x32\x27\x53\x82\x68\x25\x81\xc2\x85\x40\x4a\x46\xf8\xca\xd2\x0a\xbd\xe0\x73\xd1\xb7\x13\x00\x2c\x4c\xd6\x6d\x24\xd5\x30\x19\x6b\x4b\x10\x38\x80\x17\x6e\x3d\x73\x55\xcc\x64\x89\x74\x2a\x1c\x8a\xd1\xc6\x4e\x9c\x29\x65\x6b\x5d\x32\x69\x61\xc5\x80\xe0\x9c\xe7\xb9\xd0\x60\x31\x71\x8f\x6c\x3a\xc4\xe5\x6c\x11\x74\x3d\x1c\xbc\x2e\xc3\xfa\x44\xb6\x5e\xa7\x7e\x04\x99\x80\x4e\x12\xac\xd7\x9a\x97\x4b\xc1\x3e\x96\xec\xec\x9c\x85\x3e\xcf\x68\xcb\x48\x2c\x7f\x2c\xdd\x18\x3f\x0b\x63\x2c\x2c\x35\xf5\x1f\x87\xeb\x35\x09\x2e\xb2\x2e\x03\x46\xfb\xa7\x00\x06\x66\xa3\x68\x11\x63\x16\x4d\x3a\x9a\xdb\x3b\xe6\xac\x34\x10\xbb\xf0\xef\x04\x18\xe6\x64\xbd\xfe\x4a\x41\x1f\xf6\xb1\x4c\x5f\x92\x09\x7a\x75\x5f\xf9\x05\x8e\xd9\x68\xa3\x07\x19\xa6\x51\x97\x09\x09\xb8\x31\x50\xcb\xdb\xad\xf8\x0d\x10\x15\x69\xc7\xca\x01\x19\x98\x7c\x3c\x1c\x80\x22\xd0\x9a\x7d\x74\xce\x4a\x99\x03\x84\x81\xdb\xaf\x52\xe6\x08\x64\x38\x78\x18\xfa\x6f\x1e\x7a\xba\x17\xa7\xf1\x04\x00\x0c\x1f\x02\x39\x81\x98\xcf\xe0\x98\xc5\x14\xc5\x83\xfc\xb1\x15\x48\xd1\x07\xe8\x7c\xca\x62\x2a\x7f\x6c\x45\x1f\xa1\x01\x56\xd7\xca\x0c\x10\x3d\x1a\x16\xb3\xc9\x78\x7b\xbb\x89\x66\xb8\x38\x00\xdb\xbd\x4b\xde\x31\x08\x27\x6a\x0d\xdb\x12\x5c\x84\xe8\x33\x91\xbd\xd9\x8e\x81\x16\xef\x61\x21\x0e\xc2\x16\xdd\xb6\x76\x7b\x38\x18\xdc\x84\xbd\x33\xe9\x06\x03\x21\x2a\xd0\x67\x7b\xd7\xb6\xb7\x0d\xf6\xcd\x7f\xbd\xa1\xed\x18\x3c\x0c\x89\xc8\xb4\x27\xf1\xde\x80\x72\x7c\x9c\xe7\x4f\xef\xe6\xa2\xb2\xa8\xa7\x0c\x89\xd8\x40\x29\xd4\x50\xe0\xb2\xb8\xb3\xd9\x1c\x56\xdc\x46\x94\x4d\x1d\x7e\x41\xfa\x4c\x66\x59\x2e\x6e\xb9\x26\x2f\xf0\xb5\xf1\x7e\x21\x38\x41\x55\x95\xdf\x83\x88\x01\xb1\x69\x01\x78\x11\x7a\xa3\x5e\x10\x37\x42\xdf\x87\x6d\x83\xf3\x02\x12\xc4\x78\xa9\x31\x9d\xb2\x17\x15\x68\x0d\x90\x9c\x93\x48\x70\xcd\x79\xc9\x66\x02\x75\x8d\xc8\x60\xd8\xec\x9e\x95\x40\x76\xab\xe0\xbb\xb8\x9b\xe7\x75\x26\x32\xf2\x02\x67\x02\x50\x20\xdd\x9c\xa5\x5b\xd4\x18\x35\x38\x4d\x58\xf2\xca\x72\x5b\x9b\x64\xc2\x92\x4b\x59\x2e\x93\x71\x38\xf7\x27\xd1\xc1\xef\x1b\xcf\x3a\xa8\x32\x69\xb0\x49\xd3\x94\x1c\x2e\x64\x1e\x59\xba\xcf\x67\xe7\xac\xe0\xd5\x1b\x6a\x7a\x4b\xe4\x5f\x3f\xc0\xae\x6f\x1e\x98\x2e\xc9\x37\x18\x24\x11\x1b\x25\x67\x6c\xfd\x30\x71\x43\x9d\x19\xf9\x30\x1c\x0e\x60\x37\xde\x01\x2a\xc8\xae\x08\x32\xa0\xb5\x26\x8e\x7b\x37\x61\xea\x1a\x9a\x3d\x62\x6f\xc4\xdd\xdb\xcf\xd9\x47\xea\x9a\x38\xb0\xe2\xa5\x9c\x8f\x1a\x0b\x6f\x31\x4a\x9e\x7a\x10\x61\x07\x1f\x7d\x62\x1e\xb1\x4c\x09\xc3\x4a\x65\x99\xb8\x93\xc6\x7e\xce\x8c\x10\xf1\xc6\x07\xde\x41\x93\x1e\x90\x1a\x8f\x1d\x3f\x67\x22\x17\x56\x8c\x3c\x06\xd8\xd6\x2c\x40\x96\xf3\x06\xfd\x40\xbe\xc3\x09\x25\x17\x08\xe2\xfc\x9c\xb5\x48\x46\xcb\x1b\x74\x8a\x52\x76\x1e\x61\x3e\xea\xec\x02\xb8\x23\xf2\x2d\x92\xd3\xb1\xfb\x96\xcf\x44\x2e\xb2\x86\x1b\x28\x84\xb2\x14\xd6\xf3\x2e\xf0\x7b\xa0\x1e\xb2\xf0\xed\x4a\x94\xa1\x55\x45\xec\xea\x80\x11\xd7\x4d\xe8\x94\xb9\x83\x50\x53\x67\x46\x71\x19\x4e\xc1\x1d\x39\x07\xa3\x46\xcb\x39\x9a\x59\x11\x97\xde\xae\xe4\x7c\x85\x43\x8d\x28\xbb\x50\x70\x9a\xdc\x8d\xf6\x76\x8c\xd2\x4e\x8f\x6f\xaf\x0a\x85\x2b\x31\xf0\x64\x5b\x0a\x77\x08\xe6\x61\xdf\xba\x3e\x58\x36\x6d\x21\x35\x71\xeb\x44\x8a\x6b\x31\x17\xf2\x86\x2c\x3e\x5c\xa2\x5a\xb4\xd6\x9d\xb2\x57\x42\x04\x30\x11\x14\x6c\xf0\x86\x68\x38\xf7\x80\x28\x70\x64\x26\x2c\x97\x39\x1a\x8d\xfe\x38\x61\x30\xc7\x19\xbb\x3c\x97\xf6\x3e\xdd\x25\x42\x5a\x6b\x8f\x25\xc9\xd1\x14\xfd\x3f\x39\xf3\xbf\x47\xce\xb4\x86\x4d\xba\x8d\xbc\x3e\xb1\x73\x78\x80\xe2\x50\xd7\xf3\xab\x97\x97\x17\x64\x61\x1d\xed\x7b\x82\x19\x17\x0d\x2f\xf8\xb5\x30\x8d\x31\xd0\xe8\x73\x7e\xc3\x65\xce\x67\xb9\x20\xb7\x61\xf9\xf2\xf2\x82\xf5\x38\x03\x69\x63\x20\x36\x90\x47\x0d\xa8\xc8\x3d\x51\x15\xb9\xb6\x69\x9a\xb6\x62\x31\x29\x0d\x22\xd3\x62\xdc\x37\x11\x6c\x97\x89\x3a\x1a\xd8\xf0\x37\x6f\xfb\x21\xc1\xf6\x76\xb5\x7e\x21\x16\x4a\x8b\x11\x60\xfb\xcc\xc5\x94\xae\x94\xb3\x3e\xc7\x13\x34\xc0\xdb\xf3\x9c\x83\xe1\x24\xca\x6c\xd4\xfa\x1c\xd6\x93\xa6\xe9\x18\x03\x1d\xeb\x35\xbb\x52\xdf\xaa\x5b\xa1\x59\x6b\x05\x18\xd9\x71\xa6\xe1\xa7\x80\x11\xe1\xb1\x06\x37\x69\x2f\xf7\xae\xd7\x1e\x66\x60\xb9\x33\xd6\x5e\x56\x08\xd1\x8c\x80\x07\x9b\x53\xd6\xc1\xa5\x20\x22\x06\x4f\x30\x52\x0e\xeb\x8f\x7a\x38\xeb\x18\x3b\x3c\x2d\x3b\x3b\x38\x5f\x07\x7a\xb4\x28\x91\xa6\x29\x7c\x04\xda\x75\xe8\xdc\x66\xc1\x9b\xae\x73\x30\xce\xbb\xf7\x3b\x18\xfa\xa4\xe5\x22\x38\x7f\x04\x77\x75\x8b\xc8\x8c\x6d\x50\xd9\xc5\x43\x22\x83\xde\xb9\x59\x2e\x50\x01\x92\x2a\xc2\xd1\xaa\x66\xb9\x87\xaf\xf4\x40\xb7\xd7\xb0\x93\x66\xaa\x31\x8b\xbd\x9c\x5d\xfe\x2f\xb8\x47\x3f\xad\x03\xfc\x0e\x80\x56\x2d\x17\x6a\x8b\x92\x74\xec\x80\x9b\x62\xa7\xea\x48\x4f\xb8\xfa\x40\x27\xd8\x51\x98\x58\x7e\x3f\x79\xa7\x53\xb6\xeb\x74\x30\x09\xe2\xb0\x1d\x23\x4e\x69\x80\xeb\xf1\x25\xec\x0f\xc6\x89\xe6\xaa\xbc\x11\x1a\x84\x29\x9e\x02\x12\xa1\xdb\x6c\xe6\xbd\x5d\x0c\xa0\xd5\x46\xe8\xd3\x4c\x15\x5c\x96\xbb\x3a\xa7\xec\x52\xcb\x82\x6b\x99\xdf\xfb\xf0\x56\x1c\x0b\x23\x26\xd9\xb5\x8e\xd1\xbb\x6d\xe6\x80\xb5\xbc\x14\xef\x37\xdc\xee\x4d\x6f\x3b\x04\x3e\xd0\xd1\x76\x63\x0e\x71\xb4\xc3\x4e\xbe\xdf\xb1\x4d\x24\x78\x0e\xda\xa6\x9d\x32\xaa\x73\x9f\x68\x84\xef\xd2\xb7\x51\xfb\xb7\xc0\xa7\x2a\x55\xa3\x19\xbb\xba\x55\xf9\xfd\x41\xfb\xb4\x73\x21\x5d\x1b\xd5\x15\x09\xd9\xb5\x53\xa6\xa2\x98\xc8\xc1\xc1\xa4\x56\x00\xaa\x6b\xb7\xbe\x16\x79\x25\xb4\x19\xd2\x02\x3a\x15\x69\xb7\x00\x2a\x32\xe6\xd3\x38\xe9\xb3\x27\xe3\xcd\x0e\x80\x2f\x88\xd1\xeb\x09\xbb\x69\x2c\xbe\x22\x98\xaa\x37\xad\x10\x0c\x66\xa3\x05\xbb\x16\xf7\xb8\xdd\x19\x18\x85\x33\x65\x57\x40\x63\x3f\x8b\xcb\xe3\xb2\xd1\xf5\xd8\xb9\x1f\xd0\x35\xcf\x59\x0e\xfb\xe5\xa0\x70\xe7\x74\x61\xb8\xf5\x82\x97\xaa\x94\x73\x9e\x7f\x2d\x78\x26\xf4\x2f\xc4\xbd\xf7\x4d\x60\x22\xa3\x5c\x10\xd8\x3a\x57\xcf\x83\x98\xcf\x85\x8f\x7d\x08\x69\x57\x42\xbb\x99\xa1\x1d\x48\x71\x1e\xd6\xfa\xbd\xb4\x2b\xcc\x43\x90\x34\x84\xb5\xbe\xf9\xec\xed\x78\x6f\xc7\x1e\xec\x46\xd7\xe3\x06\x82\xb3\xfa\xdd\xf6\xcd\xed\x1d\xea\xa8\x23\xec\x4a\x8a\x34\x1f\x6d\x57\x3e\x17\xb7\xd1\x68\x9a\x1e\xb3\x0e\x2e\x74\xc4\x66\x7c\x7e\x4d\xa5\x0d\xee\xcc\x50\x88\x1e\xd6\x5a\x0a\xf4\xcd\x52\xf6\x0d\x8a\x57\x17\xec\x77\xec\x2a\x67\x12\x7c\x36\xbf\x05\x2e\x96\x6d\x15\xcb\x24\xcf\x29\xe0\x9d\x73\x2b\x34\x9b\xe7\xca\x88\x09\x75\x6a\x60\x12\x83\xb6\xb0\x1b\x41\x33\xa9\xcf\x94\xbe\x5c\xa8\xb2\xdc\x61\x9c\x52\x27\x6f\x9c\x8e\x7a\x8c\x8c\xf8\xc8\x81\x85\xb0\x19\x6b\x1d\x44\x5f\xab\xeb\x25\x1e\x3f\x17\x72\x6d\x17\x59\x0c\xb6\xbd\x9a\xee\xb8\xec\xe0\x86\xeb\x2e\xd1\x13\x5c\x98\x6d\x27\x7f\xb0\xee\x36\x28\x23\xaf\x67\xcb\xb2\x74\x54\x43\xf6\x04\x42\x79\xcf\xd3\x2d\xe2\xe1\x21\xed\x8a\x00\x27\x93\x2d\x0f\x75\x97\x65\xd9\x98\x9e\x3d\x5a\x2b\x32\x3d\xf7\x48\x2f\x72\x83\x07\xaa\x6d\x9a\x06\x1a\x8c\xd0\xaf\x44\x30\xce\x4e\x6d\x7e\x05\x11\xe7\x0f\x50\xf0\x5d\xf6\x9a\xea\xec\xd4\x81\xda\xa2\xe9\x19\x63\x6c\xd7\x36\x4d\x9a\x79\x07\x0f\x5e\xd8\xc2\x09\x00\x1a\x30\x77\xa2\x7e\xbc\xf9\xb2\x43\x2f\x7a\xfb\x65\xb7\x5e\xdc\xad\xe9\x0e\x35\x5f\x9c\x0e\xea\xd1\x8b\x24\x14\x76\xdb\x2f\xfd\x7a\x91\x8c\x11\x40\xe6\x40\xc5\x08\x5d\x83\x11\x03\xea\xfa\x28\xd5\x58\xe5\xf7\x5d\xba\x31\xde\xb6\x1f\x6f\xce\xf4\x5b\x9d\xde\x9a\xd9\x69\x75\x1e\x68\x4f\xee\xb5\x65\x76\x5a\x9d\xad\x5d\xdb\xb5\x8e\x6e\x63\xa6\x2b\xd9\xb3\xdb\xea\x3c\x22\xbd\xb3\xdb\xea\x74\x58\xa0\x92\x35\x57\x2a\x36\x64\x88\xe6\x5d\x9a\x20\x22\x39\x2d\x79\x07\x94\xd1\xb5\xb8\x37\xec\xcd\x5b\x1f\xfe\xdb\x03\xef\xa0\xf4\x58\x91\xb1\x93\x7d\x46\x14\xea\x86\x8a\x4b\xdd\x4c\x3e\x1c\xf8\x60\xe0\x75\x63\x5a\x21\x7a\x6b\x17\x23\xbb\xf1\x81\xc0\xb9\xbd\x4b\xc9\xf0\xb8\x1e\xa7\x2e\xe8\x39\xfe\x9c\xf9\x80\xe0\x80\x00\x87\xa8\x08\xfe\x49\x86\x4c\x08\x82\x81\x10\x05\x98\xd4\x35\xb6\xda\x4e\x8a\x8c\x9d\x37\x56\xe0\xcf\x95\x2c\x47\x27\x45\x36\x69\x3e\x5d\xc2\x18\x82\x9a\xa6\xa9\x8b\x11\x36\xfe\x21\x58\x35\x2e\xb2\x46\x3b\x79\xa8\x7d\xf3\xf5\xd5\xd5\xe5\x87\xc4\xcd\x30\x69\x4f\x54\x2e\x91\xbd\xd8\x39\x4b\x78\x55\xe5\x72\x8e\x65\x2a\x58\xf9\xf7\x39\x9b\xaf\xb8\x36\xc2\x9e\xd7\x76\x71\xfa\xb3\x24\x84\xdb\x60\x56\x17\x3a\x68\x0c\x23\xb6\x72\x5f\xf0\xcc\xee\x0f\xc3\x01\x30\x55\xb2\x4a\x8b\x4c\x2c\x64\x29\x32\xac\xb0\x30\x51\xec\x2d\x9a\x66\x6f\xf0\xad\x5d\xe0\xd3\x0e\xbe\xc5\xa5\x1f\xde\x96\x91\x0b\x96\x22\x7c\x34\xfb\x5b\xd1\xa9\x8e\x80\x5c\x3f\x74\xdc\xff\xae\x66\x17\x91\xa3\x39\xc0\xae\x35\xad\x80\x5c\xf7\xa0\xa7\x20\x16\x48\xdc\xe8\x91\x88\xfe\xe8\x1f\xf2\x78\x61\x85\x1e\x6d\xb6\xd8\x8b\x66\x6b\x47\xd1\x36\x8f\x11\xd0\xf6\x2a\x0f\x0a\x07\xba\x28\x11\x86\xfe\x0a\x0c\xf5\xd7\x77\x60\x4e\xbd\x54\x35\xe0\x30\x1e\x46\x16\x85\xcb\x66\x80\x6e\xe8\x21\x73\xe8\x3a\x93\x65\x26\xcb\x25\x5a\x85\x34\x2c\xfd\x82\x3e\xb9\x58\x77\xe1\xc7\x61\xd0\xda\x75\x4f\xbf\x13\x7a\xc6\xfe\x86\x5d\xa9\xd7\x55\x25\xf4\xc3\x43\x32\x4e\x2f\xb9\x5d\xb5\xfa\xc0\x87\x2b\x51\x54\x39\x96\x01\x27\x63\xcf\x05\xa3\x9e\x7a\xb0\x11\x45\xcf\xe3\x68\xa3\xc3\xa8\x23\xe4\xe8\xec\x3a\x58\x5e\x34\x25\x66\x5b\xda\xf6\x9f\xb3\x10\xa1\xe3\x57\x94\x34\x6b\x19\x7f\x9d\x81\xc7\x01\xca\x88\x8d\x4a\x44\xf7\xd3\x09\x8d\xc2\x17\x98\x44\x7c\x42\xd9\x39\x0a\x45\x22\xff\xf8\x3c\x9b\x9f\xf1\x7b\x68\xd7\x13\xf0\x5a\x32\xb1\xe0\x75\x6e\x41\xdb\x11\x83\x00\x30\x0c\x4b\xaa\x05\xdb\x94\x05\x13\xc6\xd9\x4c\x65\xe8\xb5\xc0\xdf\x64\xf6\x83\xfb\x98\xe0\x3c\x49\xf0\x38\x6f\xb0\x1e\x6d\x3a\xa5\xf9\x53\xc4\x6e\x34\x26\xbf\x86\x33\x83\xb9\x6f\x06\xc8\x02\xa8\x3f\xff\xec\xb3\x94\x7d\xb3\x88\xf0\x8d\xe2\xa9\x74\x6e\x84\xc6\xd2\x6a\xe8\x51\x69\x75\x23\xc1\x25\x5e\xd1\x89\xa2\xbc\xdb\x4c\x10\xb6\x94\x9e\x84\x7e\x8d\x4d\x16\x83\xc6\xba\xad\x06\x3a\xac\x22\x7d\xc6\xb5\x59\x71\x2c\x09\xf3\xf8\x17\xf4\x09\x38\xd2\xd4\xf3\xb9\x10\x99\x21\x1f\xec\xe7\xaf\x5e\x3c\x77\x15\xda\x99\x2f\xa7\x0e\x39\x3e\xc4\xdd\xa3\x53\x1b\x91\xf5\x2f\x8b\xd2\xff\x17\xb0\x5d\x13\xef\x1a\x86\x95\x35\x8d\x2d\x68\x4c\x96\xc6\x0a\x9e\x79\x9a\x91\x90\x8c\x25\x44\x97\x21\x12\x2a\x49\x26\xec\x96\xa4\x60\x9b\x0d\xd0\x00\x81\x5d\x9d\xb0\x77\x70\xfc\x62\x92\x90\xf8\xf9\x9e\xaa\x0d\xd7\xb8\x8b\x67\x00\xcc\x6f\xe8\x03\xc5\x3b\x8b\x86\x80\xa4\x68\xa1\xcb\xa8\x4d\xdb\x46\xcf\x4a\x62\x9e\x2f\x70\x4a\x37\xf4\x29\x85\x59\x03\x20\x3f\x0e\xc8\x3d\x1a\x7f\x1e\x77\x3b\x8f\x74\x2e\x32\xe3\x79\x00\xe7\x03\x05\x83\xdb\x94\xd8\x66\x34\x06\x31\x38\x4a\x9c\x20\x3c\x05\xe9\x97\x4c\x62\x95\x47\x0b\x58\x79\x26\x8b\xf1\x6f\x8b\x07\xcf\x87\xcd\x3a\x30\xa0\xd3\x98\x1c\x1e\x86\xeb\x69\x46\x54\xb9\xb3\x89\xcb\xf5\xa4\xa3\x67\xfa\x15\xb4\x8c\x43\xa4\x63\x80\x47\xe3\x8c\x4a\x56\x53\x62\x87\x6f\xc0\x74\x2c\x79\x1e\x29\x09\xc4\xdd\xcc\x77\x60\x1d\xb1\x59\x83\x38\x02\x3f\x67\x66\x1e\x35\x3b\xf7\xf1\x36\x45\xa6\x70\x18\x43\xc7\x71\xf8\x38\x02\x6a\x8f\x41\xde\x34\x7c\x47\xd2\x4f\x8f\x66\xf5\x82\xbd\x79\x3b\xbb\xb7\x62\xec\x78\x7d\x4d\x7e\xfc\x2d\x8b\x59\x28\x44\xc7\x3d\x9f\xbd\x2e\xdd\xce\x02\x84\x09\xfb\xf4\x76\xfc\xf9\x66\xf4\x9c\xac\x14\x23\x7f\x03\x38\xff\xec\xff\xff\xe5\x5f\x10\x0b\xe5\xa2\x84\x31\x63\xf6\x57\xd4\x46\xfc\x50\x2f\xd8\x39\x9b\xd5\x8b\x37\x67\xf0\xf1\x6d\xbb\x7a\x69\x51\x58\x62\xdc\xc5\x28\x09\xb1\x46\x64\xa1\x47\x9f\x98\x47\x67\x6c\xce\xcb\x52\x59\x56\x81\xb9\xc3\x4a\x55\x9e\xa2\x8c\xf3\x86\x3c\x74\x4c\x26\x00\x7c\xdc\x0a\x46\xb9\xaa\xe0\xe7\xe2\x76\x74\x4b\xe0\x91\x46\x28\x43\xe3\xb5\x47\xc9\x1d\xec\xc5\xc8\xfe\x64\xbf\x82\x59\xce\x9c\x00\xfd\x95\x13\xe7\xb0\x8b\xae\x17\xb7\xd2\x2c\xa4\x13\xe7\x9e\x0b\x51\x50\x45\x9b\xdb\xb8\x19\x86\x49\xbc\xe7\xe1\x2f\xbb\x1c\x52\xcc\xed\xca\x2d\xa2\x49\x03\xaa\x24\x34\x07\xa6\x91\x48\x18\x6f\xf1\xb2\x97\xb1\x38\xd5\x1f\x4c\x72\xcf\x23\xa3\x55\x03\x74\xcc\x62\x6e\x63\xed\xa2\xb9\x55\xda\xcc\xd0\x33\xba\x39\x56\x64\xca\xe1\x9f\x2d\x10\x0e\xa9\xe1\xce\x04\xc9\x5e\x9b\x24\x0a\x52\xed\x31\x4a\x42\x50\x62\xa7\xf6\xdf\x74\x72\x11\xfb\xee\xd4\x0a\x82\xa4\xeb\x3e\x30\x06\x84\xdf\xa9\xd3\x35\xb1\xff\xda\x18\x36\x1a\xfc\xd3\x0d\x97\x17\x4b\xd1\x90\x57\xae\xae\x2e\xfd\x57\x84\x0c\x1c\xbc\x2f\x72\x3f\x88\x42\x14\x3b\x97\xd5\xe9\xf3\xb2\x13\xa7\x60\xb0\x4b\xbf\xbf\x3b\xc8\xc4\x02\xdc\x86\x14\xa4\x76\x8a\x05\xf7\xa3\xb1\xf3\xee\xc0\x17\x6e\xdc\xdf\x8d\xb5\x46\xbe\x30\x9a\x85\x28\x35\x9c\x40\x71\x15\xfc\x2f\x05\xcf\x1e\xe7\xf9\x88\x80\x1f\x56\xe5\xe8\xcb\xfa\x17\xa0\xf0\x26\x2c\x71\x92\x40\x83\xb2\xf5\x06\x0f\xac\xcc\x93\x33\xf1\xf5\x1d\x6d\x41\xf4\x19\x01\xaf\xbd\x50\x03\x57\xe3\xec\x9c\x85\x6b\x2c\x8d\xb8\x73\x76\x1e\xb9\x9d\x8f\xf3\x5c\xdd\x5e\x72\x6d\x25\xcf\xcf\x18\x63\x56\xd7\xce\x28\x7c\x22\xcd\x9c\xeb\xec\x75\x89\xb7\x6e\xce\x9a\x16\x5f\xfe\x01\xeb\x3a\x67\xf1\x84\x5b\x22\x55\x8b\xf7\xdb\x42\xb5\x5b\xac\xf6\x0b\xd6\x4e\xd1\xea\xd0\x68\x11\x33\x1c\xd8\x75\x07\x59\x63\x51\x7a\xac\xcc\x25\x82\x0c\x22\x85\xf8\x05\xcf\x5a\x06\xf6\x00\x10\x68\xd0\x0a\xde\x3a\x78\x94\x97\x5c\xf3\xc2\x78\x77\xe5\x3b\xae\xcd\x48\xc3\x1e\xbe\x63\xe7\xac\x69\x87\xde\xef\x6b\xa1\xef\x9b\xee\x3a\x7d\xfd\xf2\xdb\xf4\x97\xf0\x71\xe4\x07\x44\x5d\x86\xb1\x0f\x43\xd5\x63\x20\x2c\x3c\xd7\xe2\x0d\x0c\xe3\x83\xdf\x72\xc1\x4a\xdf\x2d\xfd\x56\x91\x61\xcd\x12\x5c\x24\xf5\x19\xac\xd7\xae\xf9\x2b\x51\xe2\xa4\x61\x37\xc1\xbb\xe9\x0e\xef\xee\x46\xe1\x45\x29\xd4\x62\x0b\x0f\xf1\x7e\x1b\x0f\x5c\xd6\x8f\x41\x24\x70\xc2\xa7\x18\x96\xf2\xa9\x6e\xef\x31\x9e\x6e\x94\x0a\xf7\x3a\x44\x9d\x12\xb3\x2f\xc9\x49\xf2\xd1\x78\xef\x20\xe8\x75\x6e\xc8\x56\xdf\xf0\x06\xc8\x37\xd2\x47\x24\x30\x3b\x10\xec\x92\x7d\x9d\xb6\x75\x5f\x4e\x33\x98\x48\x7d\x82\xe2\xd9\x96\x98\xd8\x14\x12\x41\x16\xbc\x36\xe2\x12\xc6\x81\xbc\x34\x67\xed\x86\xa7\x65\x5d\x3c\xaf\x8b\x99\xd0\xd0\xe2\x1b\x9e\x16\xd2\xbe\x2e\x2b\x55\xd5\xe0\x12\x67\x41\xac\x3c\x0c\x5b\xf2\x34\x92\x29\xde\x1d\x68\x72\xad\x88\x6a\xfa\x4c\x18\xc3\x97\x62\xbc\xab\xec\xc1\xb3\xc1\xbb\x89\x93\x56\xc1\x9c\x44\x4b\x2a\xea\x15\xe7\x60\x9b\x0b\x43\xce\x18\xe8\x8a\xa1\xf4\x14\x83\x6c\x6a\xa1\xbe\x64\x6c\x63\xbb\xeb\xc8\x9c\xd8\x99\x7e\x45\x25\xb0\x95\x7a\x5d\x71\xc3\x56\x3c\xa3\xb1\x7d\xc9\x56\x4c\xf1\x65\x4c\xe1\x15\x16\x59\x46\x77\x74\xa3\xbb\xbf\xe0\x09\x22\x14\x77\x61\x36\xf5\x4a\x3f\xe4\x78\x81\x99\x97\xba\x9a\x6f\x65\x82\x5b\xc9\x5c\x02\xd2\xce\xe8\xee\xcc\xe5\xee\x4b\xe5\x7a\x0a\x45\x9e\xca\xce\x21\x1b\xf8\x63\x32\x77\x1b\x06\x08\x2f\x20\x77\x5d\x8a\xe6\x8e\xd5\x7c\x05\x7b\x92\x62\x0b\xcf\x8d\x82\x2d\x70\x67\x98\xb4\x42\xad\xf3\xe1\xee\xd9\xbd\xa6\x39\xad\x75\x9e\x4c\x9c\x10\xbf\xe4\x76\x35\xde\x37\x30\xec\x4a\x32\x61\x09\xf0\x1c\x08\x91\x64\xfc\xc1\xb9\x67\x00\xf1\xe1\xb9\xe7\x68\x74\x13\x62\xed\x48\x3d\x97\x64\xec\x91\xf4\x62\xb9\xbc\xc1\xbb\x10\xd6\x51\xad\x50\x16\xe3\x0b\xb2\x34\x96\x97\x73\x91\xb2\xef\x05\x13\x77\x15\x5d\x19\xa3\x6f\x74\x8d\xac\x10\x64\x3e\x36\x93\x64\xd2\xcc\x15\x5e\x9e\x30\xf7\xc6\x8a\x62\x02\xcc\x35\x9d\xb2\x5c\x5e\x8b\x3c\xa4\xaf\x31\x0a\x92\xac\x94\xb1\x67\x48\xbb\x26\x3f\xdd\xac\x60\x14\xa6\xf2\xd5\xc6\xbd\x91\xdb\xe3\x33\xd3\x72\xc1\x3e\xf2\x2c\xf7\x35\x37\x97\x5a\x2c\xe4\x5d\x98\x71\xc2\x12\xbc\xb3\x4a\xb6\x67\xc0\xe3\x9c\x3e\x9f\x4d\xa7\x09\xfb\x7f\x81\x12\x28\xac\xea\x20\x05\x6b\x9d\x83\xf1\x69\x44\x80\x76\x70\x8d\x17\xd8\x0a\xf5\xd0\x5d\xe5\x05\x2b\xa7\xc3\xe3\x70\xf9\x55\xaa\x45\x4e\x9e\x2b\xda\xc8\x28\xbc\x4d\xd5\xf7\xc4\x03\x18\x0c\x02\x40\xb7\x4a\x5f\x4f\x18\x85\xcc\x99\xd3\xf4\xe0\xf8\xb1\x7b\x55\x6b\x52\x23\xd4\x2a\x81\x84\xc9\x38\x8e\x1c\x1e\x19\x9f\x65\x72\xb1\xe5\xfc\x38\xa4\xa1\x95\x12\xff\x91\xa3\x24\xcb\x4c\xdc\x6d\x8f\xf8\xcc\x8f\x71\xd9\xfd\x4d\xaf\x62\x57\x72\x1f\x66\x22\x0b\x6f\xc7\xb8\x8e\xeb\xbd\x51\x86\xdf\xe5\xec\x7b\xc3\xc6\xce\x82\x1c\xcc\x55\x75\xff\xfa\xe5\xb7\xa3\x7a\xc2\xe2\xfe\x5f\x70\x23\x40\x7c\x3c\x3c\x24\xde\x10\x8d\xe2\xb9\x7b\x02\xbf\x1b\x31\xe2\x56\x2c\xb9\x1d\x03\xde\xcc\xee\x0f\x36\x13\xfc\xde\xb6\x8d\xe2\xc0\xdd\xe1\xe1\xdd\x99\xfe\x9d\xfb\x1e\x32\xfe\x3f\xf9\xce\xf7\x05\xd2\x5d\x25\x41\xdf\xd6\x4e\x36\xad\xcd\xae\x70\x78\x53\x61\x80\x92\xc7\xef\xe3\x8c\x1b\xc1\x4e\xe0\x0c\xbf\x7e\xf9\xed\x04\x4d\x7d\xe6\x73\x96\xfe\x33\x9c\xdf\x12\xec\x82\xb3\x73\x76\x02\x03\xe8\x4f\xd4\x17\xce\x3d\x68\xaa\x9c\xa1\xc5\x19\x2a\x17\xf6\xce\xa7\x46\x5f\x81\x7d\x3b\xc7\x3a\xf8\x5a\xbb\x50\x0d\x9a\x0a\xee\xe0\x5a\xc5\xaa\x3a\xcf\xe9\xd2\x19\xe9\x39\x91\x51\x92\x52\xd5\xa0\xba\xbd\xf9\xea\xd4\x12\xc5\xc9\x49\xed\x15\xde\x84\x8d\x1d\x50\xb0\x15\x5c\xb8\x23\x65\xec\xb9\xb2\xee\x0e\x2f\x80\x04\x58\x28\x29\x56\xfc\x46\x30\xff\x36\xc7\x6e\x93\x04\xe7\x99\x61\xb6\xca\x5d\x63\xc3\x1b\x3b\x20\xf9\x3d\x6a\xb7\x52\x0b\x17\x1f\xe7\xbe\xa0\x89\x04\xbf\x5d\x89\xfb\x26\x0a\x1f\x2a\xec\xa3\x4b\x76\x42\x07\x85\xeb\x52\xcb\x6d\xda\x51\x3a\x39\xba\x4e\xd2\xaf\x0f\xe2\x88\x4f\x47\x27\x97\x71\xdb\x71\x09\xf3\x00\xeb\xf0\x27\x4b\x28\x07\x8b\xc7\x45\x7e\xe3\x3c\xf2\x46\xde\x17\x83\x86\x68\xff\x82\x02\xe8\x29\x8f\xd9\x2b\xb0\x37\x43\x52\x9d\xc2\x66\x67\x44\x6a\xd3\xbf\x72\xe1\x28\xb2\xc6\x36\x43\x52\x3e\x4a\xe3\xa6\x89\x0b\x4b\xe2\x8a\xd2\xcd\x90\x54\x14\x7a\x25\x33\xcf\x65\x49\x42\xcb\x0a\x6f\x67\x94\xaa\x3c\xfd\xb3\xcf\x3e\x8b\xd3\x45\x13\x76\xeb\x72\x22\xe8\x4f\x55\x5a\x58\x42\x13\x06\x94\x08\x8b\x7c\x2b\x3c\x40\xd6\x8a\xa2\xc2\xd3\x47\xab\x88\xcf\x9f\x0b\x60\xb3\x82\x5c\x98\x06\x47\x8f\xc4\xde\x90\x99\x2f\x0f\xe9\x08\x99\x75\x92\x7d\x77\xc4\x8c\xfa\x1c\x1f\x32\x3b\x26\x02\x76\x8e\x0f\x5a\x3c\x7d\xf1\x65\x6f\x10\xec\xb9\xb8\x8d\x62\xe3\x28\x71\x30\x58\x83\xaf\x55\xc4\x51\xaf\x03\x03\x6a\x1d\xf1\xb4\x00\x34\x19\x47\xf5\x14\x3a\xca\x45\x00\xe0\x28\xce\xf3\xe2\x17\xfb\x63\x76\xad\x4c\xc4\x78\xc2\x92\x88\x67\xce\xd8\xa3\x4f\xb2\x47\xe8\x06\x34\x73\x84\xb9\x29\xe4\x68\xaa\x7d\xdc\x3c\x3c\x3a\xae\xd7\x1b\xd6\xeb\x8b\xea\x45\xa4\xdd\x1b\xd3\x33\x55\x47\x50\x6f\x8b\x42\x31\x51\x36\xaa\x4d\x3e\x6d\x6a\xa0\x07\x1b\x45\xd0\x91\x00\xda\x2c\xf4\x3a\x20\x7a\xbe\x3f\x76\x4e\x06\x41\x2b\x02\x74\x5c\xf4\x7c\xab\x44\x6c\x18\xbc\x5d\x17\x0e\x62\xfc\xf0\x80\x39\xbe\x37\x41\x49\x6b\x2d\x55\x6d\x18\x4c\x84\x8e\x89\x5a\x38\xc0\x1b\xca\x77\x04\x36\xc1\x84\xe2\x80\x94\x33\xc6\xd4\x98\x17\x05\x07\x2c\xeb\x80\xe8\x79\x4f\x09\x59\x08\x1d\x0d\x8c\xd5\x37\x3c\x07\x02\x27\x89\x8b\x4c\xd2\xa7\xdd\xef\x05\xec\x8a\xa8\xfb\x08\xa7\x16\xef\x91\x55\x62\xf5\xd5\xeb\x1a\x6f\xf6\xeb\xf7\xbd\x29\x2a\xf1\x4a\x90\x63\x8a\xc6\x58\xc5\x35\x2f\x84\x15\xda\xb8\x48\x2d\xde\xb6\x71\x9e\x1c\xd6\x50\xf9\xa4\xd2\xc6\xb5\x48\x43\x95\xd0\xad\x58\x27\xcc\xf2\x8a\xbe\x87\x60\xa7\xef\xf8\xb0\x79\x8b\x14\x4c\xc6\x64\x8a\xf8\x77\x79\x7b\x15\x45\x0b\x76\xc8\xba\xae\xbc\x81\xaa\xf3\xac\x7c\x64\x9b\xd3\x4b\xab\xfc\xe4\x7d\x42\xc6\xa7\x97\xa0\x44\x95\x97\xfc\xd6\x19\x99\xb5\xff\x1d\xda\x42\x03\x7e\x6d\x53\x0e\x19\xaf\x4d\x3a\x2c\xb8\xe8\x8c\x58\x83\x80\xb3\x45\xe5\xd2\xb3\x6e\x83\x6d\x51\xb5\xc9\xd9\x17\xbb\x66\x4d\xe5\xf6\x61\x61\x63\xb9\xc0\x03\xe1\xba\xbd\x14\x95\xc0\xb7\xff\xdc\xdf\xdf\x18\x70\xa5\x82\x44\x6d\x20\x8f\x2e\xfc\xab\x7b\x3e\xee\xac\xb0\x22\x2d\xf1\xdb\x9f\x8c\xfd\x08\x5a\xea\x9b\x24\x84\xa8\x7f\x19\xe2\xf1\xae\x22\xfb\x2d\xb1\x70\x1a\x7a\x5c\xf0\x42\xe4\x4d\x1d\xba\xe3\x83\xdc\x84\xbf\x9d\xc1\x17\x5d\xce\xe8\x1b\xef\xf3\x21\x0e\x8d\xf4\x71\x96\x8d\x76\xa0\x32\x89\x9e\xaa\x1a\xdd\x8c\xc9\x87\x1b\xc4\x58\x38\x6e\x44\x17\x27\x07\xe3\x6c\xc1\x94\x66\x23\xd0\x97\x5b\x44\x1b\x6f\xd2\xd5\xe3\x6f\x8b\xca\x87\x57\x5b\xf5\x1b\x7d\xab\x70\x78\x74\x30\x77\x27\x7f\x3b\xf6\x5e\x70\x99\x53\x81\x8d\xe7\xee\x3e\xf8\x49\x7b\xa1\x4e\x54\xf9\x93\x3d\xb2\x45\x35\x1e\x1e\x45\x45\x82\x30\x8e\x08\xd5\x6c\xe5\xf4\xe4\xf7\xff\xf6\xb7\x3f\xfc\xee\x5f\x7e\xf8\xe7\x7f\xff\xe1\x1f\x7e\xfb\x87\x7f\xfa\xbb\xff\xfa\x8f\xff\xfc\xfd\xef\xfe\xfe\x87\x7f\xfd\xed\x1f\x7e\xfb\x8f\x27\xd3\xe0\x7f\x12\x77\xba\x39\x5e\x59\xae\x9f\xde\x55\xda\xb7\x81\x0d\xd2\xb7\xe5\x1f\x9d\xc7\xe4\xf9\x80\x8d\x3f\xe9\xdd\x87\x4d\x86\x88\x57\xf6\x01\x13\xed\x9b\xa7\x71\xa3\x07\xad\x4a\xbe\x8d\xbf\x36\xe3\x0b\x4e\x48\xa8\x52\xa8\x45\x5f\x76\x69\x5b\x52\x60\xf7\x7e\x49\xd1\x80\xad\x82\x24\xa7\x21\xbe\x20\xb1\xb5\x6f\xe1\x50\x50\xf7\xf6\xa9\x70\xdf\x36\x8f\x05\x3a\x6b\xa4\x23\x81\x32\x5f\x09\xbb\x5e\xfb\xbe\xee\x3e\xe9\xf8\x73\xec\xf1\xd1\x39\x6b\x9a\xfe\x5a\x68\x85\x6e\x5d\x74\xdc\x77\x1e\xb1\x4e\xc0\x63\x3f\xb2\xfb\x94\x1d\x7d\xce\x3a\x27\x49\xc2\x2c\x7e\xc9\x3b\x0e\xdb\x16\x4b\x39\x60\x7b\xce\x5b\x0f\x7b\xfe\x94\xc4\x3d\x18\xaf\x58\x9a\xf2\x7c\xbc\x85\x60\xcc\xd2\x87\x71\x78\xac\x8d\x71\x42\x76\xce\x1c\x3a\x64\xc8\x61\x4d\xab\xe7\xeb\x32\xb2\xa0\x30\x8a\x98\x2c\x85\xa5\x27\x0e\x63\x0d\x8d\x4e\x53\x4b\x41\x5b\xf5\x52\xd8\x0f\xb5\xc9\x0e\x51\xd4\xa7\x7b\xd2\xbb\xed\x34\xf3\xf4\x84\xbd\x28\xf3\x7b\x2c\xcd\xc6\x40\x0e\x01\xa1\x34\x93\x59\x81\x1d\xc3\x66\x21\x86\x43\xe5\x81\x46\x31\x9e\xe7\x08\x40\xd9\x55\x5c\x7a\xa9\x0a\x69\x41\xcb\x67\x35\x26\x12\xc0\x5b\x94\xa5\x30\x86\x9d\x4c\xdd\x8c\xb8\xfc\x6e\xe9\xba\x5b\x57\x6f\x05\xfe\x88\xd6\x21\x19\xbd\x2f\x6f\xda\x9f\x38\xed\xcf\x9c\xf6\xa7\x4e\x7b\x73\xa7\xf4\xda\x07\xb7\x7c\x33\x7d\xda\xca\x9e\xee\x79\x74\x6b\x97\x45\x49\x8e\x0d\x31\x16\xa7\xc2\x55\xf6\xc9\x4d\x32\x61\x48\xd9\xc6\xae\xfc\x82\x4a\x22\x37\x9f\xb3\x1c\xd1\x0b\x99\xcf\xc5\xed\x17\xf5\x62\x21\xf4\x08\x70\x8d\xcb\x8b\x59\x9c\xc0\x77\x5e\xe1\x60\xfb\x8d\xaf\xbd\xaf\x7e\x84\x27\x3f\x0f\xcd\x90\x3d\x7f\x7c\xf5\xea\x03\x5f\xfd\xc0\x61\x30\x9e\x51\x54\x31\xfc\xed\xee\x42\xe2\x6b\xae\x74\x0b\xd2\xe8\x1b\xfa\x3b\x3c\xe1\xe6\xfc\xa8\xed\xd7\xe3\x0e\xbd\xa6\xd8\x75\xe1\xf0\x55\x3d\x0b\x0c\x00\x38\x80\x08\xab\xc5\xab\x7a\x66\xe6\x5a\xce\xe8\xc1\x95\xad\x3b\x85\x69\xfb\x15\x96\xce\x3e\x09\x2e\x21\xee\x49\xa5\xff\xcf\xcc\x12\x17\x3b\xde\xcb\x59\x8e\x43\xc0\xfa\xef\x46\x3c\xba\xaf\x17\xb1\x41\xfb\x1d\xc3\x67\xfc\x5a\x44\x1b\x76\xe8\x3b\x2b\xb8\x47\xfb\xdf\x59\x69\x20\xef\xbd\xea\xd1\x7a\x4f\x36\x0d\x04\x0e\xd7\x3d\xa2\xbd\xee\x79\x5f\x65\x37\x04\x57\x08\xf0\xa7\xf7\xcc\x4a\xb3\xae\x43\x9f\x59\x89\x9e\x57\x69\xaf\xf9\xb9\xb8\x6d\x96\x7d\xd4\x13\x2b\xb0\x51\x3d\xf7\x5c\x43\x58\x67\xab\x4f\x94\xe9\x6a\x7a\x74\xdd\x85\x38\xe2\x0d\x96\x68\x97\x7f\xd4\x1b\x2c\x11\x9c\x50\xfb\x7a\xd4\x63\xa0\x8c\x11\xcb\x75\x71\xd4\xd6\xcb\x2a\x47\xbe\xdd\x11\xc5\x97\x89\xa8\x1b\xb7\x0f\xbb\x6f\xd3\x99\xa5\x13\x80\xcf\xcc\xb2\x3f\xac\xbc\x5d\x71\xd9\x75\xe1\x70\x47\xdd\x76\x61\x96\xe9\x13\xd4\x7b\xdd\x95\x86\x3b\x1e\x3f\xf9\xf4\xa0\x37\x33\x86\x2d\x8e\xda\x53\x2a\x86\x0b\x3e\xa0\x54\x0c\x4b\xc3\xd4\xec\xd7\x62\x1e\x9e\x93\x35\x61\xbf\xfc\x1b\x17\xcf\x78\x79\x4f\x19\x0f\x85\x8c\xe1\x1e\xf9\xc7\x72\x9a\x1a\xe6\xb6\x8c\xd3\xcb\xc2\xcc\x88\xd2\x48\x10\x77\xee\x3e\x4d\xab\x82\xac\x03\xef\xbe\x67\x6c\x2a\x30\xc9\x5c\x79\x44\x39\x6f\x69\xb0\x3d\x95\x64\x9e\xce\x2d\x1e\xa4\xf9\x61\x09\xf1\xc4\x93\x70\xc9\x77\xde\x80\x1d\x1f\x53\xd5\x02\x2b\xfa\xf0\xaa\x96\x68\xf4\x9e\x17\x15\x60\x35\xff\xd3\x2f\x2a\x34\xd8\x6d\x5b\x11\xbd\x0a\xe8\xb2\x9e\xe5\xd2\xac\x1a\xfd\xf3\xe3\x9e\x53\x38\xc4\xfa\xf8\x90\x67\x12\x7c\x21\xc5\xee\xa7\x12\xb6\xb4\x44\x58\x9d\xab\xa5\x08\xef\x25\x50\x55\xc5\x1e\x83\x66\x18\x95\x4b\xb4\x8e\x42\x5c\x23\xd1\xa3\x57\x5a\xd5\x11\x9b\xc5\x11\x9b\xb5\x11\x7f\xc2\x6f\x1e\xa0\x01\xf4\xa1\x6f\x1e\xf4\x50\xa5\x53\xf6\x1d\xf6\xe6\x81\xd7\x0b\x7f\xb4\xd7\x0d\x7a\x50\x3e\x40\x55\xb1\x7e\x5d\x35\x9d\xb2\x43\xd4\x90\xd0\x3a\xa4\x53\x37\xd5\xd1\x74\xca\xb6\x35\xd2\x74\xca\x1e\x22\xe8\x7e\x30\x5d\xe6\xf1\x83\x3f\xfd\x74\xbb\x2d\xc5\x6c\xe5\xf9\x39\x4b\xde\x49\x77\x3b\xeb\x5d\xd2\x33\x8d\xcf\xae\x6e\x03\xf1\x45\xb4\x1e\x91\x8e\x8c\x64\xe7\x9b\x0d\x87\x2a\xe5\xae\x54\xe1\x6e\xad\xdc\xfd\x38\x52\xcc\xc3\x4e\x37\x77\xab\xe6\xce\xc4\x5d\x4b\x33\x6f\xbc\xed\xe0\xff\x47\x6a\x5c\xe5\x4c\x54\xe3\xc2\x7b\x94\x35\x2c\xce\x4b\xfa\x67\x66\xb9\xa9\xab\x4f\x11\xd7\x9f\x46\x61\x1f\x6a\x63\xed\xcb\xd7\xed\x55\xd0\x61\x22\x04\x1c\xc0\x8d\xa3\x6d\xf8\xef\x00\x00\x00\xff\xff\x9b\xf7\x11\x8f\x54\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\x03\xed\x3d\xc9\x8e\x1c\x47\x76\xe7\xaa\xaf\x08\x15\x24\x32\xb3\x5d\x9d\x45\x1b\xb0\x31\x6e\xa1\x0d\x70\x69\x51\x9c\x11\x97\x61\x37\x25\xc0\x04\xc1\xc9\xaa\x8a\xea\xca\xe9\xac\xcc\x64\x2e\xbd\x4c\xbb\x2f\xbe\xc8\x80\x0d\x18\xf0\xc9\x07\x63\xe0\x93\xaf\x86\xcf\xfe\x9e\x91\x31\x7f\xe1\xb7\xc4\x96\x6b\x55\xb5\x34\x83\x81\x61\x02\x22\xb3\x32\x23\x5e\xbc\x78\xf1\xe2\xed\x11\x9a\xcd\xc4\xd3\x74\x29\xc5\xb9\x4c\x64\x1e\x96\x72\x29\xe6\x37\x62\x1e\xe6\x69\x12\x88\x67\xaf\xc5\xab\xd7\x67\xe2\xe4\xd9\x8b\xb3\x60\x3c\x9b\x89\xb7\x32\xaf\x92\x24\x4a\xce\xb9\x81\xb8\x8a\xe2\x58\xa4\x97\x32\xbf\xca\xa3\x52\x8a\x72\x1d\x15\x62\x15\xc5\x92\x1a\x7f\x2b\xf3\x22\x4a\x93\x23\x71\x7b\x1b\xa8\xe7\xbb\x3b\xe7\x83\x78\x06\xa3\xb9\x5f\xf1\x37\xb4\x18\x67\xe1\xe2\x22\x3c\x97\xf8\xe5\x0d\x3f\xbe\x0a\x37\xf4\x05\x3a\x9f\xe9\x31\xc4\x22\x4d\xca\x30\x4a\x0a\xb1\x91\xe5\x3a\x5d\x16\xa2\x4c\xc5\x26\xbc\x90\x22\x4a\x96\xd1\x65\xb4\xac\xc2\x58\xc8\x64\x99\xa5\x51\x52\x42\x97\x3c\xdd\x88\x42\xe6\x97\xd1\x42\x16\x53\x84\x94\xcb\x4f\x95\x2c\x4a\x11\x26\x4b\x78\x2e\xb2\x34\x29\x60\x0a\x37\x99\x24\x48\xd8\x14\x67\x94\xc2\x4b\x03\x65\x2a\xc2\x42\x5c\x49\x98\x34\xfc\x2b\x93\x05\xd0\x2d\x2f\x10\x00\xc2\x5b\x4a\xf5\x7b\x95\xe6\xaa\x23\x41\x9b\xd2\x8b\x10\x29\xb5\x12\x69\x95\x8b\xa2\xca\xb2\x34\x47\x4a\x97\x79\x98\x14\xf8\x8c\xc3\x45\x61\x1c\xfd\x26\x2c\x81\x10\x08\x0d\xfa\x6c\xc2\xb2\x08\xc6\xe3\x68\x43\x2d\xbc\xf1\x68\x32\xbf\x29\x65\x31\x81\x07\x9c\xbb\xbc\x2e\xf1\x91\xd0\x80\x25\x99\xfd\xba\x48\x13\x7c\xb1\xda\xd0\xfb\x28\xe5\xbf\x67\x51\x5a\x95\x51\x8c\x3f\x12\x59\xce\xd6\x65\x99\xe9\xe7\x2a\xa7\xd7\x45\x99\x03\xbc\x4b\xf5\x08\xa0\x60\x08\x78\x3e\x8f\xca\x75\x35\x0f\x16\xe9\x66\x76\x9e\x1e\x5e\x44\xe5\x0c\xff\xd3\xb4\x80\xd6\x61\x72\x93\xcd\xc5\xe4\x3c\x4d\xcf\x61\xc9\xcf\xd3\x38\x4c\xce\x83\x34\x3f\x9f\x65\x79\x5a\xa6\xf3\x6a\x35\xa3\xf9\xcf\x2e\x92\xf4\x2a\x99\x51\x6b\xe8\xb5\xac\x72\x9a\xe4\x1e\x5d\x6d\x17\xe8\x2f\x37\x59\xb9\xcf\xb8\xaa\x3d\xf4\x5c\x45\x32\x5e\x6e\xc2\xe2\x62\x8f\xde\x4e\x1f\x80\x00\xe4\xa9\x16\xe5\x1e\xdd\x75\x07\xe8\x5b\x46\x1b\xe0\xb6\x70\x93\xed\xd1\xdd\xe9\x03\x10\xae\xf2\x30\xcb\x80\xc1\xf6\x00\x60\xbb\xb4\x97\x34\x87\xcd\x1b\xce\x36\xd5\xf5\xa4\xfe\x25\xbb\x38\x9f\xc9\x3c\x4f\x73\xe2\xb4\x81\x81\x0c\xe7\xd1\x1b\xcd\x7e\x03\x1d\xe8\x01\x11\xb9\xbd\x3d\x14\xd1\x4a\xc8\x4f\x22\x78\x9a\x26\xab\xe8\x3c\x38\x33\x3b\x61\x02\x3b\x65\x22\x26\x09\x30\xff\x44\xc0\xa6\xaf\xe1\x86\x6f\x0f\x81\xa7\xf1\x5f\x18\x62\xc2\xa0\x80\x27\xb1\xe1\x0e\x50\xcf\xf3\x6c\xa1\xa1\xb6\xf0\xa4\x8f\xbd\x5f\x66\x20\x66\xc2\x65\x58\x86\xcd\x41\x77\x1e\x12\x9f\xec\x8e\xef\xd9\x5f\xa6\x81\x46\xc7\x19\x0b\xf7\xee\x1e\x00\xd4\x56\xdf\x8b\xd8\xf8\xb4\xc7\x10\xd4\xd1\xc5\xd1\x1f\x8f\xc7\x97\x61\x8e\xd2\xea\xa3\x38\x16\x20\x8b\x82\xd3\x0c\x64\x4a\xc9\xbf\x49\x80\x01\x1a\x9b\x2c\xcc\x25\xbf\x52\xd2\x27\x78\x5c\xa6\x11\xbf\xa9\x4d\x33\x78\x25\xaf\x4e\x51\x16\xe7\xfc\x91\xa5\x59\xf0\x2a\xcd\x9e\xc6\x20\x62\xcd\x5b\x00\x9a\xdd\xf0\x0f\x66\xde\xe0\x3b\xe0\xfd\xf1\x08\x44\xa9\x5a\x4f\xcd\x86\x2c\x95\xb1\x29\x89\xa4\xe0\x71\x42\xfd\xac\x90\x09\x9e\xa9\x47\x7c\xad\xc4\x47\x70\x82\xff\xe2\x0b\xbd\xa5\x83\x53\x7a\xc0\x57\xce\x36\x0d\xce\xf4\x33\x7e\xb0\xdb\x0f\x5b\xc3\x56\xf9\x36\x8c\x2b\x9a\xb7\x23\x57\x82\xaf\xf0\xf9\x25\x3c\x23\xf5\x66\x07\x3b\xfd\x11\x27\x46\xb3\x1d\xec\xfc\x67\x46\x1a\xf4\x45\x22\x42\x56\x6f\xf9\x54\x44\xe5\xc3\x42\x54\x85\x5c\x55\x31\xa9\xa9\x55\x95\x2c\x70\xea\xa0\x03\xd7\x61\x29\x12\x89\x5a\x2a\x15\x69\x46\xb6\x81\x48\xb1\x2f\x3c\x1f\x6a\x35\x80\x00\xe7\x61\x11\x15\x81\xf8\x0a\xba\xcb\x6b\x98\x79\x2c\xa7\xe2\x26\xad\xc4\x26\x3a\x5f\x97\x22\x0b\x0b\x54\x91\x0e\xc2\x00\x2f\x34\x03\xf1\x38\xb0\x36\xcb\x0a\x14\x33\x82\x83\xb6\xc8\x01\xc1\xd7\xa0\x57\x63\xc4\xf1\x0a\x98\x50\xc8\x70\xb1\x56\x9a\x5e\x78\x7a\x74\x1f\xbe\xe5\x80\x61\x95\x31\xd0\x22\x93\x8b\x68\x15\x2d\x60\xd0\x72\x1d\x08\xef\x05\xe1\x07\x06\x03\xc0\x9f\x87\xf3\xf8\x06\xda\x6c\x22\x58\x1e\xb2\x12\x40\x63\x17\xd1\x79\x82\x5d\xa3\xe4\x32\xbd\x40\x75\x2f\xc5\x29\xdb\x08\xc6\xaa\x20\x14\x25\xc2\xb1\x33\x60\x1e\x40\x10\x9a\x92\x81\x0f\x2d\x0c\x75\x17\x71\x24\x93\xb2\x4e\x5d\x18\x65\x91\xc6\xb1\xa4\x7e\xda\x40\x01\x8c\x80\xf9\x19\x1c\xcc\xc3\x9a\x2b\xf0\x17\x4c\x08\x01\x16\xc0\x36\x31\x9b\x12\x4c\xab\x08\x29\xbc\x91\x44\x49\x07\x5f\xe8\x21\xf3\x55\xb8\x90\x7d\x2b\x81\xc0\xcc\x60\xdd\x46\x52\x85\x83\x89\xba\x04\xc1\x0d\xf8\x54\xcd\x07\xe4\xc0\x3c\x4a\x88\x4e\x1b\x85\xa2\xb3\xb0\x53\x65\x4a\x95\x55\x9e\xc0\xd4\x71\xc6\x88\xe0\x02\xa6\x29\x73\xb4\x98\x42\x8d\x6c\x30\xa6\xe9\xb4\x08\x7a\x3b\x1e\xbd\x4b\xcc\xfc\xe4\x12\x2c\x40\xdd\x83\x4d\x40\x25\x09\x6e\x6f\x01\x45\xb0\x10\x3f\x8f\xc4\xd1\xb1\x30\x6d\x5e\xf2\x92\xb1\x58\xfe\x3c\x52\x7d\xf4\x28\x02\xfe\xe8\xa9\x06\xfa\x25\x80\x62\xc1\xc5\xd6\xa5\xc1\x68\xfb\x10\xc8\xc0\xc0\x89\xb6\x8b\x2f\x9c\x41\xbd\x45\x79\x2d\x94\x95\x86\x62\x17\xff\x9d\x22\xc3\x1c\xdc\xde\x3e\x4f\xb1\x0d\x40\x0e\xde\xb2\x09\x7a\x06\xc4\x50\xfd\x7c\xe1\x35\x5a\xb0\x61\xea\x34\x99\xb2\x80\xf3\x91\x5a\xda\x6e\xa5\x77\x88\xa8\x0c\x3a\x66\x8e\xc8\xe0\xe0\xfe\x78\x84\x8a\x00\x5a\x7e\x76\x2c\x92\x28\x46\x08\x23\xb5\x5e\xf0\x93\x80\x8c\x47\x77\x63\xfd\x4e\x43\x0f\xb6\xe2\xe4\x4f\x11\x00\x10\x51\x93\x13\x89\xf9\x12\xb7\x99\x4b\x51\xda\xc8\x9f\x83\x18\x41\x8a\xde\x61\xe3\x43\xe1\x52\x19\x3e\xf5\x11\x1a\x61\x75\xcd\xac\x40\xa2\x3b\xdd\x5c\x36\xf1\xdb\xcb\xcd\x34\xa3\xc9\x21\xd8\xee\x55\xd2\x8e\x81\xd9\x51\xb7\xb8\x2c\xc6\x45\x70\x5e\x33\xd9\xed\x72\x00\xec\x4f\x38\x11\x05\xa1\x45\xb7\xd6\x6a\x43\x97\x4b\xb3\x76\x45\xd0\x60\x20\x42\x05\xdb\xb4\x57\xad\xbd\x6c\xb8\x6e\xfa\xed\x25\x2f\xc7\xe8\x6e\xcc\x44\xe6\x35\x71\xd7\x06\x95\xe3\xe3\x38\x3e\xb9\x5e\xc8\xac\x24\x3d\x55\xb0\x88\x35\x94\x22\x0d\x85\x2e\x8b\xda\x9b\x76\xb3\xd2\x32\x92\x6c\xea\xf0\x0b\x82\x97\xd1\x12\xc4\xf6\x15\xe8\x77\xf2\x02\xdf\x15\xda\x2f\x44\x27\x28\xcb\xe2\x1b\x14\x31\x28\x36\x4b\x04\xbe\x31\xad\x49\x2f\x48\x58\xb6\x1b\xb3\x6c\xb8\x5f\x50\x82\x14\x5a\x6a\x00\xbc\xd7\x19\x6a\x0d\x94\x9c\x53\x47\x70\x2d\x40\x0e\xcd\x25\xe9\x1a\x10\xa3\xd0\x0d\x7c\xd8\x04\xc9\x0e\x30\xe1\xbd\xbc\x5e\xc4\xd5\x12\xbe\x90\x17\x38\x97\x88\x02\xeb\xe6\x65\xd0\xa2\x86\x67\x71\x9a\x8a\xc9\x69\x19\x96\x55\x31\x81\xa7\x37\xd0\x6b\xe2\x9b\x7d\x7f\xe0\x6c\xfc\xbe\xfe\xa2\x83\x2a\x53\x8b\x4d\x10\x04\xec\x70\x11\xf3\x44\x89\x7a\x0d\xac\xb0\x09\xb3\xf7\xfc\xe9\x03\x93\xff\xf6\x0e\x57\xbd\xb9\x61\xba\x24\xdf\x68\x34\x71\xd8\x68\x02\x0e\xf6\xdd\x54\x75\x55\x66\x24\x70\xc0\x08\x57\xe3\x23\xa2\x42\xec\x4a\x20\x0d\x5a\xb7\xcc\x71\xf0\x39\xbd\xc0\xcf\x1a\xb1\xf7\xf2\xfa\xc3\x97\xe2\x33\x78\x49\x1c\x98\x85\x49\xb4\xf0\xac\x85\xb7\xf2\x26\x27\x1a\x84\x59\xc1\x87\x5f\x14\x0f\xc5\x32\x85\xd5\x4d\xd2\x12\x86\x00\xe5\xfb\x25\xac\xa7\x74\x17\xde\xf0\x0e\x99\xf4\x88\x94\xef\x2b\x7e\x5e\xca\x58\x96\xd2\xd3\x18\xd0\x37\x3b\x01\x78\x6d\xd1\x37\xe4\xdb\x9d\x50\x30\x49\x04\x71\x7c\x2c\x6a\x24\xe3\xe9\x8d\x3a\x45\x29\x98\x97\x16\x73\xaf\xb3\x09\xe2\x4e\xc8\xd7\x48\xce\xdb\xee\x9b\x70\x0e\x33\x5a\x5a\x6e\xe0\x10\xca\xb9\x2c\x35\xef\x22\xbf\x1b\xea\x11\x0b\x5f\xad\x65\x62\xbe\xa6\x0e\xbb\x2a\x60\xcc\x75\x53\xde\x65\x6a\x23\x54\xdc\x58\x70\x5c\x26\xe4\xe0\x0e\xd8\x45\x60\xd4\xc0\x3f\x64\x66\x39\x5c\x7a\xb5\x8e\x60\xe7\x63\xd7\x02\x86\xee\x40\x41\x69\x72\xd5\x5b\xdb\x31\x69\xae\xf4\x78\x7b\x56\x24\x5c\x99\x81\xa7\x6d\x29\xdc\x21\x98\xc7\x7d\xf3\xba\xb7\x6c\x6a\x21\x35\x55\xf3\x24\x8a\xe7\x72\x21\xa3\x4b\xb6\xf8\x68\x8a\x00\xcc\x9d\x77\x00\xa6\x8a\x34\x60\x1c\x28\xf4\x41\x1b\xa2\x66\xdf\x23\xa2\xc8\x91\x4b\xf0\x11\xa3\x98\x8c\x46\xbd\x9d\x28\x98\xa3\x8c\xdd\x30\x8e\xca\x9b\x60\x48\x84\xd4\xe6\xee\x4a\x92\xbd\x29\xfa\xff\x72\xe6\xff\x8e\x9c\xa9\x75\x9b\x8a\xbd\xc4\xce\xee\x01\x8a\x5d\x5d\xcf\xe7\x6f\xdf\x3c\x65\x0b\x6b\x6f\xdf\x13\xcd\x38\xa7\x3b\x86\x6b\x0b\x6b\x0c\x58\x7d\x1e\x5e\xc2\x36\x02\x87\x4d\xb2\xdb\x70\x0e\x5d\x44\x8f\x33\x10\x58\x03\xd1\x42\xf6\x2c\x28\xc7\x3d\x49\x33\x76\x6d\x61\x3f\xd4\x62\x31\x01\x77\x62\xd3\xc2\xef\x1b\x08\x97\xab\x70\x1a\x16\xb8\xe0\xef\x3f\xf4\x43\xc2\xe5\xed\xfa\xfa\x44\x02\x53\x49\x0f\xb1\x7d\xa9\x62\x4a\x67\xa9\xb2\x3e\xfd\x29\x19\xe0\xf5\x71\x8e\xd1\x70\x82\x19\x79\xb5\xd7\x66\x3e\x30\x1d\x9f\x02\x1d\xb7\xb7\xe2\x2c\xfd\x26\xbd\x02\x5c\x6b\x33\xa0\xc8\x8e\x32\x0d\x1f\x20\x46\x8c\xc7\x2d\xba\x49\x5b\xb9\xf7\xf6\x56\xc3\x34\x2c\xa7\x3c\xf3\x23\x51\x9f\x9d\x89\xd4\x78\xc8\x8a\x76\xb3\x75\x30\x2b\x4a\x8a\xd1\x33\x0a\x98\x23\x19\x9c\x16\xca\x48\xa6\x06\x27\x49\x67\x03\xe5\xf2\x60\x8b\x1a\x41\x80\x0e\xf8\x12\x49\xd8\xa1\x7a\xed\xbc\x9b\x1e\xb4\xb1\xd1\xbb\x97\xdd\xd8\xfb\xac\xec\x1c\x38\x7f\x00\xaf\xb5\x8f\xd6\xe0\xbb\xd6\x89\xad\xde\x3b\xe6\xbd\x72\xba\x54\xd8\x02\xe5\x96\x83\x2a\xc6\x38\x34\x86\xbb\x4f\x78\x47\x27\xb8\x10\x07\x76\x28\x5f\xb8\x3e\xcf\x90\x37\x8c\xce\xd2\x4f\xeb\x0e\x7f\x44\xa0\x59\xcd\xa1\xea\x23\x28\xef\x45\xe4\x2d\xd7\xd3\xda\xd3\x3d\xce\xee\xe9\x19\x2b\x42\xf3\x06\xd8\x4e\x65\xe8\x31\xb4\x57\x30\xc0\x15\x8a\x7a\xe0\x38\xe0\x0e\xaa\xc5\x57\xb8\x4c\x14\x3c\xc2\x50\xab\xcc\x51\xc2\xd2\x9e\x60\xb9\xda\xa2\x91\x71\x81\x29\xaa\x06\xc6\x64\x7e\xb8\x4c\x37\x21\xf8\x55\x03\x8d\x03\xf1\x26\x8f\x36\x61\x1e\xc5\x37\x3a\xe6\xe5\x06\xc8\x98\x57\x86\xe6\xe1\x7d\x6c\xf3\x08\xce\x05\x3e\x37\x7c\xf1\xa6\x0b\x6e\xa2\x21\xe4\x7d\xab\x3e\xbb\x78\xdf\x66\x25\x3f\x0d\x2c\x13\x8b\xa1\x9d\x96\x69\x50\x62\x75\xae\x13\xf7\xd0\x4d\xfa\x16\x6a\xfb\x12\xe8\xfc\x65\x6a\xd5\x65\x57\x33\xf0\xbf\x77\x5a\xa7\xc1\x89\x74\x2d\x54\x57\x78\x64\x68\xa5\x8a\x8c\x03\x25\x3b\x47\x98\x6a\x51\xa9\xae\xd5\xfa\x5a\xc6\x18\x6b\x1f\xf3\x04\x3a\xb5\x6b\xb7\x1c\xda\x2c\x85\xce\xed\x04\x2f\x9f\xf9\xcd\x06\x88\x2f\x4a\xd3\x8b\xa9\xb8\xb4\x66\xe0\xc6\xd8\xaf\x97\xb5\xb8\x0c\xa5\xa8\xa5\xb8\x90\x37\xb4\xdc\x4b\xb4\x14\xe7\x29\x38\x25\x40\x63\x3d\x8a\x4a\xee\x0a\xef\xc2\x57\x3e\x09\x36\x05\xaf\x24\xc6\xf5\x52\x50\x42\xe5\x89\x51\x0c\xf6\x69\x98\xa4\x60\x05\x87\xf1\xd7\x32\x5c\xca\xfc\x17\x00\x5d\x39\x2c\x38\x50\x91\xaa\xc8\x70\xa9\xfc\x3f\x0d\x62\xb1\x90\x3a\x20\x22\xc1\x31\x02\x5e\xe0\x91\xf1\x3b\x92\xe2\xd8\xcc\xf5\x3b\xf8\x4c\xc9\x09\x96\x86\x38\xd7\xf7\x8f\x3e\xf8\x5b\x1b\xf6\x60\x07\x33\xb3\x10\x94\x2b\xa0\x96\x0f\xba\x91\xaa\xda\xc3\xd8\xe4\xf0\xf3\xde\xc6\x26\xd8\x23\x4e\x6f\x1e\x9e\x52\x11\x2a\x9e\x24\xe6\xe1\xe2\x82\xeb\x1d\xd4\x9e\xe1\xb8\x3d\xce\x35\x91\xe4\xb0\x05\xe2\x05\x89\x57\x95\x01\x50\xec\x1a\xcd\x23\x74\xe4\xf4\x12\xa8\x00\x37\x6c\xbd\x65\x14\xc6\x1c\x05\x8f\x43\xe0\x7b\x80\x97\x62\x6c\x96\x1a\x59\x98\xcc\xa0\x35\xec\x3c\xfc\xcc\x5a\x34\xe0\x37\xc0\x7c\xc9\x80\xc5\xca\x8d\xb4\xc5\xea\xf5\x98\x1c\xee\x96\x43\x43\xa1\x19\x80\x1d\x39\x6f\xb3\x8b\x73\xda\x7e\x2a\x0e\x5b\xaf\xbc\x18\xb5\x5d\x9d\xee\x60\xed\x08\x93\x7f\x1d\xa2\xc7\xf8\x35\x6d\xcf\x7f\x74\xdb\x6d\x65\x3a\xae\x50\xcb\xce\x54\x54\x23\xf6\x44\x42\x69\x77\x54\x4d\xe2\xee\x2e\xe8\x0a\x0b\x4f\xa6\x2d\xb7\x75\xc8\xce\xb4\x86\x68\x8f\xd6\x72\x0c\xd1\x2d\xd2\x8b\x7d\xe3\x51\x5a\x37\x54\x0d\x0d\x3c\x72\x36\x09\x8c\xb2\x5a\xed\x93\x11\x71\x7a\x03\x19\x87\x66\xab\xfd\x2e\x0e\x15\xa8\x16\x4d\x8f\x30\x19\x32\x40\xf3\xa9\x1d\x77\x74\xa7\x85\x2d\xee\x00\xa4\x81\x50\x3b\xea\xc7\x9b\x2f\x03\x7a\x51\xdb\x2f\xc3\x7a\x71\x58\xd3\xed\x6a\xbe\x28\x1d\xd4\xa3\x17\x59\x28\x0c\xdb\x2f\xfd\x7a\x91\x8d\x11\x44\x66\x47\xc5\x88\x4d\x8d\x11\x83\xea\x7a\x2f\xd5\x98\x61\x5c\xbc\xad\x1b\xdd\x65\xfb\xf1\xe6\x4c\xbf\xd5\xa9\xad\x99\x41\xab\x73\x47\x7b\x72\xab\x2d\x33\x68\x75\xd6\x56\x6d\x68\x1e\xdd\xc6\x4c\x57\x06\x68\xd8\xea\xdc\x23\xe7\x33\x6c\x75\x2a\x2c\x48\xc9\x16\x67\xa9\x6b\xc8\x30\xcd\xbb\x34\x81\x43\x72\x9e\xf2\x00\x14\x0f\x6c\x86\x42\xbc\xff\xa0\x63\x82\x5b\xe0\xed\x94\x33\x03\x73\xe8\x60\x9b\x11\x45\xba\x21\x0b\xa3\xdc\x0e\x0e\x2f\x55\x84\xf0\xc2\x9a\x56\x84\xde\xad\x0a\x9c\x5d\xea\xe8\x20\x0c\x1b\xb0\xe1\x71\xe1\x07\x2a\x12\xea\x7f\x29\x74\x94\x70\xc4\x80\x4d\xa8\x84\x7e\xb2\x21\x63\x22\x63\x28\x44\x11\x26\x37\x75\xad\xb6\x03\xc0\xff\xd8\x5a\x81\x3f\x07\x19\xe8\xc1\xbb\xa9\x7d\xf5\x06\xfb\x30\x54\x8c\xb7\xf8\x1a\x9c\x63\xd5\xa8\x70\x1b\xaf\xe4\xae\xf6\xcd\xd7\x67\x67\x6f\xee\x13\x4c\xa3\x4c\x3e\x53\x39\x21\xf6\x02\xfc\x27\x98\x5f\x03\x3b\x0c\x95\x0c\x95\x03\x7e\x29\x16\xeb\x30\x2f\x64\x79\x5c\x95\xab\xc3\x9f\x4d\x4c\x0c\x0e\x47\xd5\x91\x05\x63\x18\x89\xb5\x7a\x43\x7b\x76\x7b\x6c\x0e\x81\xa5\x89\xc8\x72\xb9\x94\xab\x28\x01\x4b\x0a\xcb\x2e\x0a\x27\x20\xe7\x0c\xb3\x35\x22\x57\xaf\xfa\xa9\x47\xe4\xdc\x7a\x10\x6d\xcb\xc0\x3a\x06\x04\x9f\xcc\xfe\x5a\xc8\xaa\x23\x4a\xd7\x0f\x9d\xd6\xbf\xeb\xb3\x0a\xd3\xf1\x18\x68\xd7\x16\xb5\x28\x5d\x77\xa7\x13\x14\x0b\x2c\x6e\x60\xca\xce\x8f\xfe\x2e\x8f\x57\x20\x56\xbc\xe6\x97\xf2\xa9\x5d\x5a\xcf\x59\x66\x9f\x00\xb5\x67\xb9\x53\x8c\x50\x05\x8b\x28\x1e\xb8\xa1\xf8\x7f\x75\x8d\xe6\xd4\xdb\xb4\x42\x1c\xfc\xb1\x63\x51\xa8\x14\x07\xea\x86\x1e\x32\x9b\xa6\x73\x2c\x26\x49\xce\xc9\x2a\xe4\x6e\xc1\x13\x7e\xa5\x02\xe0\x1b\xdd\x8f\x22\xd9\xaa\x39\x96\xfd\xce\xc5\xdf\x89\xb3\xf4\x1d\x16\x49\x81\x31\xe6\xc3\x2e\x2b\xd7\xb5\x36\xf8\xe2\x4c\x6e\xb2\x98\x6a\x83\xa1\x85\x66\xa7\x9e\x22\x31\x8f\x43\xea\x6e\xec\x51\x61\xd4\x11\x80\x54\x76\x1d\x4e\xcf\x19\x92\x52\x30\x75\xfb\x4f\x59\x88\xd8\xf0\x39\x67\xd2\x6a\xc6\x5f\x67\x18\x72\x44\x32\xa2\x51\x9e\xa8\x1e\x95\xd0\xd8\xe8\xaa\x13\x87\x4f\x38\x65\xc7\x81\x49\xe2\x1f\x9d\x7c\xd3\x23\x7e\x87\xdf\xc1\xb2\x07\xaf\x05\xb6\x5d\x58\xc5\x25\x6a\x3b\x66\x10\x04\x46\x41\x4a\xd8\xb0\x4d\x59\x00\x7e\x09\x38\xa2\x4b\xf2\x5a\xf0\x37\x9b\xfd\xe8\x3e\x4e\x68\x9c\x89\xf1\x38\x2f\xa9\x48\x0d\x40\xd1\xfb\x80\xb0\xf3\x7c\xf6\x6b\x40\x1e\x50\x42\x5c\x20\xb2\x08\xea\x2f\x1f\x3d\x02\x27\x69\xe5\xe0\xeb\x44\x57\x79\xdf\x00\xb6\x84\x18\xb4\xc8\xf2\xf4\x32\x42\x97\x78\xcd\x3b\x8a\x93\x71\x73\xc9\xd8\x72\xce\x12\xdb\x59\x9b\xcc\x05\x4d\xc5\x5c\x16\x3a\xce\x22\x78\x09\xf2\x6d\x1d\x52\x9d\x98\xc6\x7f\xc3\xaf\x90\x23\x8b\x0a\x5c\x60\xb9\x2c\xd8\x07\xfb\xf9\xe9\xeb\x57\xaa\x6c\x7b\xa9\x6b\xac\x4d\xe2\x8f\x70\xd7\xe8\x60\xfe\xb4\x7f\x5a\x5c\x13\x80\x55\xf3\xf9\x54\xbb\x86\x66\x66\xf6\x63\x0d\x1a\xd8\x12\x45\x09\x93\xd6\x34\x63\x21\xe9\x4a\x88\x2e\x43\xc4\x94\x97\x4c\xc5\x15\x4b\xc1\x3a\x1b\x90\x01\x82\xab\x3a\x15\x1f\x71\xfb\xb9\x24\x61\xf1\xf3\x1d\x97\x20\xde\xd2\x2a\x1e\x21\x30\xbd\xa0\x77\x1c\xef\xdc\x58\x02\xb2\xa2\xc5\x26\x5e\x9d\xb6\x56\xcf\x46\xcc\x3c\x4f\x68\x48\xd5\xf5\x84\xa3\xad\x06\x90\xee\x87\xe4\xf6\xa0\xab\xd3\xec\xd8\xd1\xb9\xc4\x8c\xc7\x06\x9c\x0e\x14\x8c\xae\x02\x66\x1b\xcf\x47\x31\xe8\x4d\x94\x20\x3c\x44\xe9\x37\x99\xba\x2a\x8f\x27\xb0\xd6\x4c\xe6\xe2\x5f\x17\x0f\x9a\x0f\xed\x3c\x28\xa0\x63\x4d\x0e\x0d\x43\xb5\x2c\x3c\x2e\xe7\x69\xe2\x02\xd6\x44\xbb\x65\xf0\x1c\xbf\xf8\x26\xd2\x31\xa2\xad\x71\xc4\x75\xac\x01\xb3\xc3\x0b\x34\x1d\x93\x30\x76\x94\x04\xe1\x5e\x2c\x06\xb0\x76\xd8\xcc\x22\x4e\xc0\x8f\xa1\xa3\xf3\x59\xb9\x8f\x57\x01\x31\x85\xc2\x18\x1b\xfa\xe6\xa5\x87\xd4\xf6\x51\xde\x58\xbe\x63\xe9\x97\x7b\x58\x13\xfb\xfe\x03\x96\xe6\xfa\x8a\xd7\x6f\xd9\x8f\xbf\x12\x2e\x0b\x99\xe8\xb8\xe6\xb3\x77\x89\x5a\x59\x84\x30\x15\x0f\xae\x00\xcb\x46\xf4\x9c\xad\x94\x22\xfa\x0d\xe2\xfc\xb3\x3f\xff\xeb\xbf\x62\x16\x8a\x65\x82\x7d\x7c\xf1\x37\xfc\x8d\xf9\x01\xd0\x38\x16\xf0\xf7\xfb\x23\x7c\xf9\xa1\x5e\xd2\x84\xf9\x5f\xa2\xdb\xca\x9b\x98\x58\x23\xb1\x10\xa6\x7e\x8f\x30\xf0\x85\x99\xdf\x0c\xcd\x1d\x91\xa4\xc9\x21\xc9\x38\x6d\xc8\x63\x43\xe0\x1d\x1c\xb3\x16\x8c\x52\xa5\xc2\xa0\x3e\xbc\x2b\x06\x4f\x34\x22\x19\xea\xce\xdd\x49\xf5\x50\x2b\xc1\xf6\xa7\xf8\x15\x8e\x72\xa4\x04\xe8\xaf\x94\x38\xc7\x55\x54\xad\x40\xfc\x16\xab\x48\x89\x73\xcd\x85\x24\xa8\x9c\xc5\xb5\x6e\x06\xd6\x7d\x92\x30\x51\x27\x60\x76\xa9\xf0\x56\x35\x18\xce\xa0\x06\x55\x16\x9a\xa3\xc2\x4a\x24\x8a\xb7\x68\xd9\x0b\x7f\x9c\xfc\xbf\x31\xc9\x35\x8f\x78\x6b\x0b\xd4\x17\x2e\xb7\x89\x7a\x25\xdd\x3a\xb0\x23\xf4\xf4\xb6\xdb\x8a\x4d\x39\xfa\x59\x03\xa1\x90\x1a\x0f\x26\x48\xb6\xda\x24\x4e\x90\x6a\x8b\x51\x62\x82\x12\x83\xda\xbf\xe9\xe4\x12\xf6\xdd\xa9\x15\x02\xc9\x67\x80\xb0\x0f\x0a\xbf\x43\xa5\x6b\x5c\xff\xd5\x1a\x36\x39\xfa\xa7\x0d\x97\x97\xea\xd3\x88\x57\x00\x2b\xfd\x96\x20\x23\x07\x6f\x8b\xdc\x8f\x9c\x10\xc5\xe0\xb4\x3a\x7d\x5e\x71\xa0\x14\x0c\x35\xe9\xf7\x77\x47\x60\x76\xa0\xdb\x10\xa0\xd4\x0e\xa8\x0a\xdf\xf3\x95\x77\x87\xbe\xb0\x75\x7f\x1b\x73\x75\x7c\x61\x32\x0b\x49\x6a\x28\x81\xa2\xca\xfa\xdf\x02\x17\x3c\x8e\x63\x8f\x81\xef\x56\xfa\xa8\x6b\xfd\x57\xa8\xf0\xa6\x62\xa2\x24\x41\x8e\xca\x56\x1b\x3c\x38\x33\x4d\xce\x89\x2e\xfa\xa8\x0b\xa2\x47\x0c\xbc\xd2\x42\x0d\x5d\x0d\x40\xcc\x9c\x6d\xb1\xe2\x4e\xd9\x79\xec\x76\x02\xb6\xe9\x15\x4c\xb0\x8c\xc2\x18\xa3\x6a\xb0\xf9\x94\x51\xf8\x2c\x2a\x16\x61\xbe\x7c\x97\xd0\x51\x9c\x23\xfb\x45\xd7\x84\xe0\xbc\x8e\x85\x3b\x60\x4b\xa4\x62\x56\xb2\x25\x54\xbb\xc5\x6a\xbf\x60\xed\x14\xad\x0a\x8d\x1a\x31\xcd\x86\xbd\xed\x20\xab\x2b\x4a\xf7\x95\xb9\x4c\x90\x91\xa3\x10\x9f\x84\xcb\x9a\x81\x3d\x42\x04\x2c\x5a\xc6\x5b\x47\x8f\x12\xa8\x1b\x6e\x0a\xed\xae\x7c\x0b\xa3\x79\x39\xae\x21\x9e\xf5\xb0\xdf\xb1\x35\x00\xcc\x6f\x6c\x73\xa0\xe7\xdb\x6f\x82\x5f\xe2\x4b\x4f\x77\x70\x9a\x8c\x5d\x1f\x86\x4b\xca\x50\x58\x68\xae\xa5\x63\x19\x85\x0e\x7e\x03\x71\x13\xdd\x2c\xf8\x26\x65\xc3\x5a\x4c\x68\x92\xdc\x06\xe3\xac\xfc\x19\x7c\x04\x1a\xd4\xac\x26\x7a\x37\xdd\xe1\xdd\x61\x14\x5e\x27\x32\x5d\xb5\xf0\x80\x3d\xd6\xc2\x83\xa6\xf5\x63\x10\x31\x9c\xf0\x80\xc2\x52\x3a\xd5\xad\x3d\xc6\xc3\x46\xfd\x70\xaf\x43\xd4\x29\x31\xfb\x92\x9c\x2c\x1f\x0b\xed\x1d\x18\xbd\x1e\x16\x6c\xab\x37\xbc\x01\xf6\x8d\xf2\x3d\x12\x98\x1d\x08\x76\xc9\xbe\x4e\xdb\xba\x2f\xa7\x69\x4c\xa4\x3e\x41\xf1\xb2\x25\x26\x9a\x42\xc2\xc8\x82\x77\x85\x7c\x83\xfd\x50\x5e\x16\x47\xf5\x0f\x27\x49\xb5\x79\x55\x6d\xe6\xa0\x15\x8f\xec\x87\x93\x4d\x54\xbe\x4b\xb2\x34\xab\xd0\x25\x5e\x1a\xb1\x02\x6b\xe5\xca\x53\x47\xa6\x68\x77\xc0\xe6\x5a\x09\x55\x50\x9b\x45\x01\x46\x86\x3f\x54\xf6\xa0\xd9\xe0\xe3\x54\x49\x2b\x63\x4e\x92\x25\xe5\xb4\x72\x73\xb0\xf6\x14\x91\x32\x06\xba\x62\x28\x3d\x35\x21\x4d\x2d\xd4\x97\x8c\xb5\xb6\x7b\xee\x98\x13\x83\xe9\x57\x52\x02\xad\xd4\xeb\x1a\x98\x6d\x1d\x2e\xb9\x6f\x5f\xb2\x95\x52\x7c\x4b\x8c\x76\x45\x5c\x95\x6e\x8a\xe8\x9c\x03\xc1\xe8\x09\x12\x14\x75\x8a\x36\xd0\x4a\xdf\xe4\x78\x91\x99\x31\xda\xda\xca\x04\xd7\x92\xb9\x0c\xa4\x9e\xd1\x1d\xcc\xe5\x6e\x4b\xe5\x6a\x0a\x39\x9e\xca\x60\x97\x06\xfe\x94\xcc\x6d\xc3\x40\xe1\x85\xe4\xae\x40\x2e\x9a\x83\x57\x8b\x35\xae\x49\x40\x5f\xc2\xb8\x48\x71\x09\xd4\x1e\x66\xad\x50\xe5\xf1\x78\x78\x74\xad\x69\x0e\xf1\x78\xf2\x54\x09\x71\x8c\x03\xf9\xdb\x3a\x9a\x55\xc1\x72\x7d\xe4\x39\x14\x22\x13\xff\xde\xb9\x67\x04\x71\xff\xdc\xb3\xd3\xdb\x86\x58\x3b\x52\xcf\x09\x1b\x7b\x2c\xbd\x44\x1c\x5d\xd2\x01\x89\x52\x51\x6d\x93\x96\x14\x5f\xc0\xf0\x41\x98\xe0\xe9\xae\xef\xb0\x84\x36\xe3\x73\x64\xfc\x8e\xcf\x96\x81\xc5\x45\xe6\xa3\x1d\x64\x09\x16\x48\x4a\x27\x2a\x8a\x9b\xa2\x94\x9b\x29\x32\x17\xc0\x8a\xa3\x0b\x19\x9b\xf4\x35\x45\x41\x26\xeb\xb4\x28\x8f\x88\x76\x36\x3f\x6d\x67\xe0\x99\xa1\x74\x09\x72\x6f\xe4\x76\xff\xcc\x34\x48\x9f\xcf\x34\xcb\x7d\x1d\x16\x6f\x72\xb9\x8a\xae\xcd\x88\xb0\x94\x74\x90\x95\x6d\x4f\x83\xc7\x31\xbf\x3e\x9a\xcd\x26\xe2\xcf\x0c\x25\x48\x58\x55\x46\x0a\x02\x07\xa1\xf1\x59\x48\x03\x6d\xe7\x1a\x2f\xb4\x15\xaa\xb1\x3a\xdf\x8b\x56\x4e\x87\xc7\xa1\xf2\xab\x5c\xa0\x3c\x79\x95\xf2\x42\x3a\xe1\x6d\x2e\xc9\x67\x1e\xa0\x60\x10\x02\xba\x4a\x73\xd8\x93\x1c\x32\x17\x4a\xd3\xa3\xe3\x87\x27\xf5\x72\x56\x23\xfc\x35\x42\x12\x4e\x7c\x37\x72\xb8\x67\x7c\x16\x83\xe4\x4d\xe7\x47\x21\x8d\x5f\x39\xf1\xef\x38\x4a\xf0\x24\xaf\xdb\x3d\x1e\xe9\x3e\x2a\xbb\xdf\xf4\x2a\x86\x92\xfb\x38\x12\x5b\x78\x03\xfd\x3a\xce\xfc\x3a\x19\x7e\x95\xb3\xef\x0d\x1b\x2b\x0b\x12\xac\xe2\xec\x06\x64\x85\x07\xeb\xef\xb6\x7f\x12\x82\x92\x05\xf1\x81\xe1\x63\xdd\xd4\x5a\x07\x5b\x02\xbf\x8d\x18\x71\x2d\x96\x5c\x8f\x01\x37\xb3\xfb\xa3\x66\x82\x5f\xdb\xb6\x4e\x1c\xb8\x3b\x3c\x3c\x9c\xe9\x1f\x5c\x77\x93\xf1\xff\xc9\x57\xbe\x2f\x90\xae\x2a\x09\xfa\x96\x76\xda\xb4\x36\xbb\xc2\xe1\xb6\xc2\x80\x24\x8f\x5e\xc7\x39\x2c\x9c\x38\xc0\x3d\x0c\xbf\xa6\x64\xea\x0b\x9d\xb3\xd4\xaf\x71\xff\x26\x68\x17\xc0\x1c\x0e\xb0\x03\xff\x24\x7d\xa1\xdc\x03\x5b\xfa\x8c\x5f\x94\xa1\xf2\xb4\xbc\xd6\xa9\xd1\x53\xb4\x6f\x17\x54\x1c\x5f\xe5\x2a\x54\x43\xa6\x82\xda\xb8\xb0\x1d\xc1\xd8\x8a\xf9\x24\x1a\xeb\x39\x90\xdc\x94\xa4\x04\xa7\x15\xa4\xa8\x36\x5f\x95\x5a\xe2\x38\x39\xab\xbd\x8d\x36\x61\x5d\x07\x14\x6d\x05\x15\xee\x08\x84\x78\x95\x96\xea\x60\x2f\x82\x44\x58\x24\x29\xd6\xe1\x25\xf8\x54\xea\xc2\x8e\x61\x93\x84\xc6\x99\x53\xb6\x4a\x9d\x6d\xa3\x63\x3c\x28\xf9\x35\x6a\x78\x4c\x5a\xc5\xc7\x43\x5d\xd0\xc4\x82\x1f\x1e\x6e\x6c\x14\xde\x94\xdd\x3b\x27\xef\xb0\x8e\x49\x29\x5c\x95\x5a\xae\xd3\x8e\xd3\xc9\xce\x19\x93\x7e\x7d\xe0\x46\x7c\x3a\x1a\xa9\x8c\xdb\xc0\xc9\xcc\x1d\xac\xc3\x9f\x2c\xa1\x6c\x2c\x1e\x15\xf9\x75\xf3\xc8\x8d\xbc\x2f\x05\x0d\xc9\xfe\x45\x05\xd0\x53\x1e\xb3\x55\x60\x37\x43\x52\x9d\xc2\x66\x30\x22\xd5\xf4\xaf\x54\x38\x8a\xad\xb1\x66\x48\x4a\x47\x69\xd4\x30\x6e\x61\x89\x5b\x51\xda\x0c\x49\x39\xa1\x57\x36\xf3\x54\x96\xc4\x7c\x59\xd3\x91\x0d\x0c\x07\xfc\xc5\xa3\x47\x6e\xba\x08\xfc\x2c\x95\x13\x21\x7f\x2a\x03\x12\x32\x9a\xd8\x21\x21\x58\xec\x5b\xd1\x06\x2a\x4b\xbc\x7a\x81\xaa\xea\x68\x16\xee\xfe\x53\x01\x6c\x30\xa3\xc9\x85\xb1\x38\x6a\x24\xb6\x86\xcc\x74\x79\x48\x47\xc8\xac\x93\xec\xc3\x11\x33\x6e\xb3\x7f\xc8\x6c\x9f\x08\xd8\x31\xdd\x72\x71\xf2\xfa\xab\xde\x20\x18\x46\xb1\x6d\x6c\x9c\x24\x0e\x05\x6b\xe8\x0a\x0b\x37\xea\xb5\x63\x40\xad\x23\x9e\x66\x80\x4e\x7c\xa7\x9e\x22\x77\x72\x11\x08\xd8\x89\xf3\xbc\xfe\xc5\xf6\x98\x5d\x2d\x13\x01\xae\xc6\xc4\xe1\x99\x23\xf1\xf0\x8b\xe5\x43\x72\x03\xec\x18\x66\x6c\x0e\x39\x16\xd9\x36\x6e\x1e\xef\x1d\xd7\xeb\x0d\xeb\xf5\x45\xf5\x1c\xd2\x6e\x8d\xe9\x15\x59\x47\x50\xaf\x45\x21\x97\x28\x8d\x6a\x93\x07\xb6\x06\x7a\xd4\x28\x82\x76\x04\x50\xb3\xd0\x6b\x87\xe8\xf9\xf6\xd8\x39\x1b\x04\xb5\x08\xd0\x7e\xd1\xf3\x56\x89\xd8\xd8\x78\xbb\x2a\x1c\x04\x7d\x76\x0e\x98\xd3\x25\x14\x9c\xb4\xce\x61\x07\x15\x02\x07\x22\xc7\x04\xf4\xf2\x48\x69\xbf\x9a\xf2\xf5\xd0\x26\x98\x72\x1c\x90\x73\xc6\x94\x1a\xd3\xa2\x60\x87\x69\xed\x10\x3d\xef\x29\x21\x33\xa1\x23\xbc\x49\xea\x32\x8c\x91\xc0\x93\x89\x8a\x4c\xf2\xab\xe1\x4b\x04\x86\x22\xea\x3a\xc2\x09\xfd\x88\x55\x5c\xf5\xd5\xeb\x1a\x37\xdb\xf5\xfb\xde\x1c\x95\x38\x95\xec\x98\x92\x31\x96\x61\x18\x55\x96\x98\xb6\xe1\x48\x2d\x1d\xba\x51\x9e\x1c\xd5\x50\xe9\xa4\x52\xe3\xac\x64\xc1\x95\xd0\xb5\x58\x27\x8e\x72\xca\xef\x4d\xb0\x53\x37\xbc\x6b\x1e\x2d\x45\x93\x71\x32\x23\xfc\xbb\xbc\xbd\x8c\xa3\x05\x03\xb2\xae\x2b\x6f\x90\x56\xf1\x32\x79\x58\xda\xdd\xcb\xb3\xfc\xe2\xd3\x84\x8d\x4f\x2d\x41\x99\x2a\x6f\xc3\x2b\x65\x64\x56\xfa\xd9\x7c\x33\x1f\xe8\x6d\x9d\x72\xc4\x78\x75\xd2\x51\xc1\x45\x67\xc4\x1a\x05\x5c\xb9\xc9\x54\x7a\x56\x2d\x70\x89\x97\x0b\xb9\xe4\xec\x8b\x5d\x0b\x5b\xb9\xbd\x5b\xd8\x18\x5a\xe1\x86\x50\xcd\xde\xca\x4c\xd2\x85\x80\xea\xf7\x8b\x02\x5d\x29\x23\x51\x2d\x64\xef\xa9\xbe\x8a\x4f\xc7\x9d\x53\xaa\x48\x9b\xe8\xe5\x9f\xf8\xba\x07\x4f\xf5\xfd\xc4\x84\xa8\x7f\x69\xe2\xf1\xaa\x22\xfb\x03\xb3\x70\x60\x5a\x3c\x85\xf7\xb1\xad\x43\x57\x7c\x10\x17\xe6\xb7\x32\xf8\x9c\xc3\x19\x7d\xfd\x75\x3e\x44\xa1\x11\x3c\x5e\x2e\xbd\x01\x54\xa6\xce\xfd\x55\xde\xa5\xcf\x3e\xdc\xc8\xc5\x42\x71\x23\xb9\x38\x31\x1a\x67\x2b\x01\xc8\x78\xa8\x2f\x5b\x44\xf3\x9b\x74\xd5\xf8\xc3\x7a\xea\xf0\x6a\xad\x7e\xa3\x6f\x16\x0a\x8f\x0e\xe6\xee\xe4\x6f\xc5\xde\x2b\x30\xed\xb9\xc0\x46\x73\x77\x1f\xfc\x49\x7d\xa2\x4a\x54\xe9\x9d\xed\x01\xba\xfe\x78\x2f\x2a\x32\x04\xdf\x21\x94\x5d\xca\xd9\xc1\xef\xfe\xe3\xef\x7f\xf8\xed\xbf\xfd\xf0\xaf\xff\xf9\xc3\x3f\x7d\xff\xfb\x7f\xf9\x87\xff\xf9\xaf\xff\xfe\xdd\x6f\xff\xf1\x87\x7f\xff\xfe\xf7\xdf\xff\xf3\xc1\xcc\xf8\x9f\xcc\x9d\x6a\x0c\x30\x05\xf2\x93\xeb\x2c\xd7\xdf\xd0\x06\xe9\x5b\xf2\xcf\x8e\x5d\xf2\xdc\x63\xe1\x0f\x7a\xd7\xa1\xc9\x10\xee\xcc\xee\x31\xd0\xb6\x71\xac\x1b\x3d\xaa\x55\xf2\x35\x7e\x35\xe3\x0b\x4a\x48\xa4\x98\x4b\xea\xcb\x2e\xb5\x25\x05\x35\xef\x97\x14\x16\x6c\x66\x24\x39\x77\xd1\x05\x89\xb5\x75\x33\x9b\x82\x9b\xd7\x77\x85\x7a\xd7\xdc\x16\xe4\xac\xb1\x8e\x44\xca\x3c\x97\x25\x10\x47\xb5\x55\xc7\x4a\xc1\x8c\xc2\x16\xb0\x05\xec\xa7\xbf\x95\x79\x4a\x6e\x9d\xb3\xdd\x07\xb7\x58\x27\x60\x5f\xf7\xec\xde\x65\x7b\xef\xb3\xce\x41\x26\x66\x14\x3d\xe5\x81\xcd\xd6\x62\x29\x05\x6c\xcb\x7e\xeb\x61\xcf\x9f\x92\xb8\x3b\xe3\xe5\x4a\x53\xc0\xaf\x85\xa0\xcb\xd2\xbb\x71\xb8\xab\x8d\x69\x40\xa0\x9c\x42\x87\x0d\x39\xaa\x69\xd5\x7c\x9d\x38\x16\x14\x45\x11\x27\xe7\xb2\xe4\x7b\x0f\x5d\x0d\x4d\x4e\x53\x4d\x41\x97\xe9\x5b\x59\xde\xd7\x26\xdb\x45\x51\x1f\x6e\x49\xef\xd6\xd3\xcc\xb3\x03\xf1\x3a\x01\x87\xb6\x50\x08\xaf\x18\x08\xa7\x99\x8a\x35\xda\x31\x18\xcd\x51\x31\x1c\x2e\x0f\xc4\x54\x4c\x1c\x13\x80\x14\xb3\x47\xb6\xf4\x32\xdd\x44\x25\x6a\xf9\x65\x45\x89\x04\xf4\x16\xa3\x04\x1c\x6b\x71\x30\x53\x23\xd2\xf4\xbb\xa5\xeb\xb0\xae\x6e\x05\xfe\x98\xd6\x26\x19\xbd\x2d\x6f\xda\x9f\x38\xed\xcf\x9c\xf6\xa7\x4e\x7b\x73\xa7\x7c\x05\x48\x58\x86\xcd\xf4\x69\x2d\x7b\xfa\xe9\xfe\x16\x25\x3b\x36\xcc\x58\x21\x17\xae\x8a\x2f\x2e\x61\x47\x10\x65\xad\x5d\xf9\x84\x4b\x22\x9b\x77\x5c\x7a\x7c\x6d\x26\xf8\xf7\x4f\xaa\xd5\x0a\x7e\x23\xae\x6e\x79\xb1\x70\x13\xf8\xca\x2b\x1c\xb5\x2f\xfe\xda\x7a\x15\x88\xb9\x07\x74\xd7\x0c\xd9\xab\xc7\x67\xa7\xf7\xbc\x0a\x84\xba\x61\x7f\xc1\x51\x45\xf3\x5b\x9d\x85\xa4\x2b\x5e\xf9\x14\x64\x91\x5f\xf2\x6f\x73\xaf\x9b\xf2\xa3\xda\x57\xca\xed\x7a\x4c\xb1\xeb\xc0\xe1\x69\x35\x37\x0c\x80\x38\xa0\x08\xab\x24\xbc\x2d\x16\x79\x34\xe7\x5b\x58\x5a\x67\x0a\x83\xfa\xd5\x2c\x93\xee\x73\x87\x38\x05\xb7\x25\x97\xfe\xbf\x2c\xce\x69\xb2\xfe\x56\xce\x52\x1c\x82\xd6\x7f\x37\xe2\xce\x79\x3d\x87\x0d\xea\x97\x1b\xe2\x89\x0c\x67\xc1\x76\xbd\x7c\x85\xd6\x68\xfb\xe5\x2b\x16\xf2\xd6\xa3\x1e\xb5\x4b\x66\x03\x43\x60\x73\xdc\xc3\x59\xeb\x9e\x4b\x57\x86\x21\xa8\x42\x80\x3f\xbd\xbb\x57\xec\xbc\x76\xbd\x7b\xc5\xac\xf1\x91\xa8\xcf\x19\x4f\x3c\x98\x69\xef\x75\xe1\x0a\x2e\x54\xcf\x39\x57\x13\xd6\x69\xb5\x71\x32\x5d\xb6\x45\xd7\x59\x88\x3d\x6e\x64\x71\x56\xf9\x47\xdd\xc8\xe2\xc0\x31\xb5\xaf\x7b\xdd\x10\x0a\xda\xe3\xa0\x8f\xa3\x5a\x17\xac\xec\x79\x77\x87\x13\x5f\x66\xa2\x36\x4e\x1f\x76\x9f\xa6\x2b\xce\x95\x00\x04\x11\xd1\x1f\x56\x6e\x57\x5c\x76\x1d\x38\x1c\xa8\xdb\x86\x71\x82\x67\xa4\xf7\xba\x2b\x0d\x07\x2e\x3f\x79\xb0\xd3\x9d\x19\xe3\x1a\x47\x6d\x29\x15\xa3\x09\xef\x50\x2a\x46\xa5\x61\xe9\xfc\xd7\x58\x02\xa1\xa2\x7f\x85\x59\x2f\x7d\xc7\xc5\xcb\x30\xb9\xe1\x8c\x47\x4a\x8c\xa1\x6e\xfe\xa7\x72\x9a\x0a\xc7\xc6\xb4\x03\x5d\x37\x8c\xd9\xb2\x22\x42\x71\xa7\xce\xd3\xd4\x2a\xc8\x3a\xf0\xee\xbb\xcd\x06\x4f\xee\xea\xf2\x08\xe8\xef\x6a\xb0\x2d\x95\x64\x9a\xce\x35\x1e\xe4\xf1\x71\x0a\xee\xc0\x53\x73\xc8\x77\x61\xc1\xfa\xfb\x54\xb5\xe0\x8c\xee\x5f\xd5\xe2\xf4\xde\x72\xa3\x02\xce\xe6\x8f\x7d\xa3\x82\xc5\xae\x6d\x45\xf4\x2a\xa0\x37\xd5\x3c\x8e\x8a\xb5\xd5\x3f\x3f\xee\x3a\x85\x5d\xac\x8f\xfb\x5c\x93\xa0\x0b\x29\x86\xaf\x4a\x68\x69\x09\x33\x3b\x55\x4b\x61\xee\x4b\xe0\xaa\x8a\x2d\x06\xcd\xd8\x29\x97\xa8\x6d\x05\xb7\x46\xa2\x47\xaf\xd4\xaa\x23\x9a\xc5\x11\xcd\xda\x88\x3f\xe1\x3b\x0f\xc8\x00\xba\xef\x9d\x07\x3d\x54\xe9\x94\x7d\xbb\xdd\x79\xa0\xf5\xc2\x1f\xec\x76\x83\x1e\x94\x77\x50\x55\xa2\x5f\x57\x61\x09\xdb\x0e\x6a\x08\x1a\x98\x74\x6a\x53\x1d\x01\x88\xb6\x46\x82\x97\x77\x0e\x74\xdd\x99\x0f\xf3\xe8\xce\x0f\x1e\xb4\xbf\x05\x94\xad\xc4\x3b\x19\x3f\x46\xea\x74\xd6\xc7\x49\xcf\x30\x3a\xbb\xda\x06\xa2\x8b\x68\x35\x22\x1d\x19\xc9\xce\x3b\x1b\x76\x55\xca\x5d\xa9\xc2\x61\xad\xdc\x7d\x39\x92\xcb\xc3\x4a\x37\x77\xab\xe6\xce\xc4\x5d\x4d\x33\x37\xee\x76\xd0\xff\xe7\x1a\x55\x39\xe3\xd4\xb8\x84\x3d\xca\x1a\x27\xa7\x25\x3d\x30\x4d\x53\x57\x1f\x12\xae\x3f\x8d\xc2\xde\xd5\xc6\xda\x96\xaf\xdb\xaa\xa0\xcd\x40\x04\xd8\x80\xf3\x9d\x65\xf8\x5f\x10\xf0\xfa\x7a\x69\x69\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26964, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x2c, 0xfb, 0xd0, 0x4c, 0xde, 0x28, 0x43, 0x54, 0xd, 0xef, 0x47, 0x92, 0xf, 0x80, 0x30, 0xf9, 0xa2, 0x7, 0xd6, 0x6a, 0x3e, 0x92, 0x21, 0xc7, 0xe1, 0x4c, 0x5, 0x87, 0x60, 0x9a, 0x20, 0xee}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26985, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x33, 0x73, 0x2f, 0x95, 0x83, 0xad, 0xcc, 0x6e, 0xbe, 0xec, 0xa9, 0xb6, 0xe6, 0x1, 0x10, 0xf8, 0x91, 0x11, 0xf0, 0xee, 0xa7, 0x5f, 0xbb, 0xfb, 0xd, 0x39, 0xe0, 0xe, 0x89, 0xfb, 0x7, 0xb3}}
 	return a, nil
 }
 
-- 
2.43.0


From 3f3b32f30e009edb8a184c782879461ae727e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 18/21] fix: make decoders of optional 32-bit and enum
 parameters compile

&uint32(x) and assigning an enum to a pointer to it are no valid Go.
---
 gengokit/httptransport/httptransport.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index bee4811..3973a9e 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -502,10 +502,21 @@ func createDecodeTypeConversion(f Field) string {
 	}
 	if f.IsEnum {
 		fType = f.GoType + "(%s)"
+		// The field of an optional enum is a pointer to it.
+		if f.StarExpr {
+			fType += ".Enum()"
+		}
 	}
 	// 如果字段是标量类型并且是指针类型
 	// log.Debugf("[createDecodeTypeConversion] field[%v].GoType=%v.IsBaseType=%v, filed.StarExpr=%v\n", f.Name, f.GoType, f.IsBaseType, f.StarExpr)
 	if f.IsBaseType && f.StarExpr {
+		// A conversion has no address, so these go through the helpers of the
+		// proto package.
+		switch f.GoType {
+		case "uint32", "int32", "float32":
+			fType = "proto." + strings.Title(f.GoType) + "(" + fType + ")"
+			return fmt.Sprintf(fType, f.LocalName)
+		}
 		return fmt.Sprintf("&"+fType, f.LocalName)
 	}
 	return fmt.Sprintf(fType, f.LocalName)
-- 
2.43.0


From abc11ee923d68fc3bb28f847de27877b44856848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:03 +0000
Subject: [PATCH 19/21] fix: accept a single value of a repeated string
 parameter

GoType no longer has the brackets, so the decoder took the branch for JSON,
which failed for every plain text, and the request was rejected.
---
 gengokit/httptransport/httptransport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 3973a9e..430c3aa 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -436,7 +436,7 @@ if err != nil {
 var {{.LocalName}} []{{if .StarExpr -}}*{{- end -}}{{.GoType}}
 {{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
 if len({{.LocalName}}StrArr) > 1 {
-	{{- if (Contains .GoType "[]string")}}
+	{{- if (eq .GoType "string")}}
 	{{.LocalName}} = {{.LocalName}}StrArr
 	{{- else}}
 	{{.LocalName}} = make([]{{if .StarExpr -}}*{{- end -}}{{.GoType}}, len({{.LocalName}}StrArr))
@@ -447,7 +447,7 @@ if len({{.LocalName}}StrArr) > 1 {
 	{{- end}}
 } else {
 {{- end}}
-	{{- if (Contains .GoType "[]string")}}
+	{{- if (eq .GoType "string")}}
 		{{.LocalName}} = strings.Split({{.LocalName}}Str, ",")
 	{{- else if and (and .IsBaseType .Repeated) (not (Contains .GoType "[]byte"))}}
 	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
-- 
2.43.0


From 82bc10f7921f726fe425266a0d7e2156bbb4a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 20/21] fix: let the client leave out an optional enum which is
 not set

It sent the JSON of the nil pointer, null, which the server rejects because it
is no number.
---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 4 ++++
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 8a0d8df..b4764a0 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -646,6 +646,10 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 						values.Add("{{$field.QueryParamName}}", fmt.Sprint(v))
 					}
 					{{- end}}
+				{{else if and $field.IsEnum $field.StarExpr}}
+					if req.{{$field.CamelName}} != nil {
+						values.Add("{{$field.QueryParamName}}", fmt.Sprintf("%d", *req.{{$field.CamelName}}))
+					}
 				{{else if or (not $field.IsBaseType) $field.Repeated}}
 					tmp, err = json.Marshal(req.{{$field.CamelName}})
 					if err != nil {
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 517dee0..bc0faf4 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (26.985kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.176kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\x03\xed\x3d\xc9\x8e\x1c\x47\x76\xe7\xaa\xaf\x08\x15\x24\x32\xb3\x5d\x9d\x45\x1b\xb0\x31\x6e\xa1\x0d\x70\x69\x51\x9c\x11\x97\x61\x37\x25\xc0\x04\xc1\xc9\xaa\x8a\xea\xca\xe9\xac\xcc\x64\x2e\xbd\x4c\xbb\x2f\xbe\xc8\x80\x0d\x18\xf0\xc9\x07\x63\xe0\x93\xaf\x86\xcf\xfe\x9e\x91\x31\x7f\xe1\xb7\xc4\x96\x6b\x55\xb5\x34\x83\x81\x61\x02\x22\xb3\x32\x23\x5e\xbc\x78\xf1\xe2\xed\x11\x9a\xcd\xc4\xd3\x74\x29\xc5\xb9\x4c\x64\x1e\x96\x72\x29\xe6\x37\x62\x1e\xe6\x69\x12\x88\x67\xaf\xc5\xab\xd7\x67\xe2\xe4\xd9\x8b\xb3\x60\x3c\x9b\x89\xb7\x32\xaf\x92\x24\x4a\xce\xb9\x81\xb8\x8a\xe2\x58\xa4\x97\x32\xbf\xca\xa3\x52\x8a\x72\x1d\x15\x62\x15\xc5\x92\x1a\x7f\x2b\xf3\x22\x4a\x93\x23\x71\x7b\x1b\xa8\xe7\xbb\x3b\xe7\x83\x78\x06\xa3\xb9\x5f\xf1\x37\xb4\x18\x67\xe1\xe2\x22\x3c\x97\xf8\xe5\x0d\x3f\xbe\x0a\x37\xf4\x05\x3a\x9f\xe9\x31\xc4\x22\x4d\xca\x30\x4a\x0a\xb1\x91\xe5\x3a\x5d\x16\xa2\x4c\xc5\x26\xbc\x90\x22\x4a\x96\xd1\x65\xb4\xac\xc2\x58\xc8\x64\x99\xa5\x51\x52\x42\x97\x3c\xdd\x88\x42\xe6\x97\xd1\x42\x16\x53\x84\x94\xcb\x4f\x95\x2c\x4a\x11\x26\x4b\x78\x2e\xb2\x34\x29\x60\x0a\x37\x99\x24\x48\xd8\x14\x67\x94\xc2\x4b\x03\x65\x2a\xc2\x42\x5c\x49\x98\x34\xfc\x2b\x93\x05\xd0\x2d\x2f\x10\x00\xc2\x5b\x4a\xf5\x7b\x95\xe6\xaa\x23\x41\x9b\xd2\x8b\x10\x29\xb5\x12\x69\x95\x8b\xa2\xca\xb2\x34\x47\x4a\x97\x79\x98\x14\xf8\x8c\xc3\x45\x61\x1c\xfd\x26\x2c\x81\x10\x08\x0d\xfa\x6c\xc2\xb2\x08\xc6\xe3\x68\x43\x2d\xbc\xf1\x68\x32\xbf\x29\x65\x31\x81\x07\x9c\xbb\xbc\x2e\xf1\x91\xd0\x80\x25\x99\xfd\xba\x48\x13\x7c\xb1\xda\xd0\xfb\x28\xe5\xbf\x67\x51\x5a\x95\x51\x8c\x3f\x12\x59\xce\xd6\x65\x99\xe9\xe7\x2a\xa7\xd7\x45\x99\x03\xbc\x4b\xf5\x08\xa0\x60\x08\x78\x3e\x8f\xca\x75\x35\x0f\x16\xe9\x66\x76\x9e\x1e\x5e\x44\xe5\x0c\xff\xd3\xb4\x80\xd6\x61\x72\x93\xcd\xc5\xe4\x3c\x4d\xcf\x61\xc9\xcf\xd3\x38\x4c\xce\x83\x34\x3f\x9f\x65\x79\x5a\xa6\xf3\x6a\x35\xa3\xf9\xcf\x2e\x92\xf4\x2a\x99\x51\x6b\xe8\xb5\xac\x72\x9a\xe4\x1e\x5d\x6d\x17\xe8\x2f\x37\x59\xb9\xcf\xb8\xaa\x3d\xf4\x5c\x45\x32\x5e\x6e\xc2\xe2\x62\x8f\xde\x4e\x1f\x80\x00\xe4\xa9\x16\xe5\x1e\xdd\x75\x07\xe8\x5b\x46\x1b\xe0\xb6\x70\x93\xed\xd1\xdd\xe9\x03\x10\xae\xf2\x30\xcb\x80\xc1\xf6\x00\x60\xbb\xb4\x97\x34\x87\xcd\x1b\xce\x36\xd5\xf5\xa4\xfe\x25\xbb\x38\x9f\xc9\x3c\x4f\x73\xe2\xb4\x81\x81\x0c\xe7\xd1\x1b\xcd\x7e\x03\x1d\xe8\x01\x11\xb9\xbd\x3d\x14\xd1\x4a\xc8\x4f\x22\x78\x9a\x26\xab\xe8\x3c\x38\x33\x3b\x61\x02\x3b\x65\x22\x26\x09\x30\xff\x44\xc0\xa6\xaf\xe1\x86\x6f\x0f\x81\xa7\xf1\x5f\x18\x62\xc2\xa0\x80\x27\xb1\xe1\x0e\x50\xcf\xf3\x6c\xa1\xa1\xb6\xf0\xa4\x8f\xbd\x5f\x66\x20\x66\xc2\x65\x58\x86\xcd\x41\x77\x1e\x12\x9f\xec\x8e\xef\xd9\x5f\xa6\x81\x46\xc7\x19\x0b\xf7\xee\x1e\x00\xd4\x56\xdf\x8b\xd8\xf8\xb4\xc7\x10\xd4\xd1\xc5\xd1\x1f\x8f\xc7\x97\x61\x8e\xd2\xea\xa3\x38\x16\x20\x8b\x82\xd3\x0c\x64\x4a\xc9\xbf\x49\x80\x01\x1a\x9b\x2c\xcc\x25\xbf\x52\xd2\x27\x78\x5c\xa6\x11\xbf\xa9\x4d\x33\x78\x25\xaf\x4e\x51\x16\xe7\xfc\x91\xa5\x59\xf0\x2a\xcd\x9e\xc6\x20\x62\xcd\x5b\x00\x9a\xdd\xf0\x0f\x66\xde\xe0\x3b\xe0\xfd\xf1\x08\x44\xa9\x5a\x4f\xcd\x86\x2c\x95\xb1\x29\x89\xa4\xe0\x71\x42\xfd\xac\x90\x09\x9e\xa9\x47\x7c\xad\xc4\x47\x70\x82\xff\xe2\x0b\xbd\xa5\x83\x53\x7a\xc0\x57\xce\x36\x0d\xce\xf4\x33\x7e\xb0\xdb\x0f\x5b\xc3\x56\xf9\x36\x8c\x2b\x9a\xb7\x23\x57\x82\xaf\xf0\xf9\x25\x3c\x23\xf5\x66\x07\x3b\xfd\x11\x27\x46\xb3\x1d\xec\xfc\x67\x46\x1a\xf4\x45\x22\x42\x56\x6f\xf9\x54\x44\xe5\xc3\x42\x54\x85\x5c\x55\x31\xa9\xa9\x55\x95\x2c\x70\xea\xa0\x03\xd7\x61\x29\x12\x89\x5a\x2a\x15\x69\x46\xb6\x81\x48\xb1\x2f\x3c\x1f\x6a\x35\x80\x00\xe7\x61\x11\x15\x81\xf8\x0a\xba\xcb\x6b\x98\x79\x2c\xa7\xe2\x26\xad\xc4\x26\x3a\x5f\x97\x22\x0b\x0b\x54\x91\x0e\xc2\x00\x2f\x34\x03\xf1\x38\xb0\x36\xcb\x0a\x14\x33\x82\x83\xb6\xc8\x01\xc1\xd7\xa0\x57\x63\xc4\xf1\x0a\x98\x50\xc8\x70\xb1\x56\x9a\x5e\x78\x7a\x74\x1f\xbe\xe5\x80\x61\x95\x31\xd0\x22\x93\x8b\x68\x15\x2d\x60\xd0\x72\x1d\x08\xef\x05\xe1\x07\x06\x03\xc0\x9f\x87\xf3\xf8\x06\xda\x6c\x22\x58\x1e\xb2\x12\x40\x63\x17\xd1\x79\x82\x5d\xa3\xe4\x32\xbd\x40\x75\x2f\xc5\x29\xdb\x08\xc6\xaa\x20\x14\x25\xc2\xb1\x33\x60\x1e\x40\x10\x9a\x92\x81\x0f\x2d\x0c\x75\x17\x71\x24\x93\xb2\x4e\x5d\x18\x65\x91\xc6\xb1\xa4\x7e\xda\x40\x01\x8c\x80\xf9\x19\x1c\xcc\xc3\x9a\x2b\xf0\x17\x4c\x08\x01\x16\xc0\x36\x31\x9b\x12\x4c\xab\x08\x29\xbc\x91\x44\x49\x07\x5f\xe8\x21\xf3\x55\xb8\x90\x7d\x2b\x81\xc0\xcc\x60\xdd\x46\x52\x85\x83\x89\xba\x04\xc1\x0d\xf8\x54\xcd\x07\xe4\xc0\x3c\x4a\x88\x4e\x1b\x85\xa2\xb3\xb0\x53\x65\x4a\x95\x55\x9e\xc0\xd4\x71\xc6\x88\xe0\x02\xa6\x29\x73\xb4\x98\x42\x8d\x6c\x30\xa6\xe9\xb4\x08\x7a\x3b\x1e\xbd\x4b\xcc\xfc\xe4\x12\x2c\x40\xdd\x83\x4d\x40\x25\x09\x6e\x6f\x01\x45\xb0\x10\x3f\x8f\xc4\xd1\xb1\x30\x6d\x5e\xf2\x92\xb1\x58\xfe\x3c\x52\x7d\xf4\x28\x02\xfe\xe8\xa9\x06\xfa\x25\x80\x62\xc1\xc5\xd6\xa5\xc1\x68\xfb\x10\xc8\xc0\xc0\x89\xb6\x8b\x2f\x9c\x41\xbd\x45\x79\x2d\x94\x95\x86\x62\x17\xff\x9d\x22\xc3\x1c\xdc\xde\x3e\x4f\xb1\x0d\x40\x0e\xde\xb2\x09\x7a\x06\xc4\x50\xfd\x7c\xe1\x35\x5a\xb0\x61\xea\x34\x99\xb2\x80\xf3\x91\x5a\xda\x6e\xa5\x77\x88\xa8\x0c\x3a\x66\x8e\xc8\xe0\xe0\xfe\x78\x84\x8a\x00\x5a\x7e\x76\x2c\x92\x28\x46\x08\x23\xb5\x5e\xf0\x93\x80\x8c\x47\x77\x63\xfd\x4e\x43\x0f\xb6\xe2\xe4\x4f\x11\x00\x10\x51\x93\x13\x89\xf9\x12\xb7\x99\x4b\x51\xda\xc8\x9f\x83\x18\x41\x8a\xde\x61\xe3\x43\xe1\x52\x19\x3e\xf5\x11\x1a\x61\x75\xcd\xac\x40\xa2\x3b\xdd\x5c\x36\xf1\xdb\xcb\xcd\x34\xa3\xc9\x21\xd8\xee\x55\xd2\x8e\x81\xd9\x51\xb7\xb8\x2c\xc6\x45\x70\x5e\x33\xd9\xed\x72\x00\xec\x4f\x38\x11\x05\xa1\x45\xb7\xd6\x6a\x43\x97\x4b\xb3\x76\x45\xd0\x60\x20\x42\x05\xdb\xb4\x57\xad\xbd\x6c\xb8\x6e\xfa\xed\x25\x2f\xc7\xe8\x6e\xcc\x44\xe6\x35\x71\xd7\x06\x95\xe3\xe3\x38\x3e\xb9\x5e\xc8\xac\x24\x3d\x55\xb0\x88\x35\x94\x22\x0d\x85\x2e\x8b\xda\x9b\x76\xb3\xd2\x32\x92\x6c\xea\xf0\x0b\x82\x97\xd1\x12\xc4\xf6\x15\xe8\x77\xf2\x02\xdf\x15\xda\x2f\x44\x27\x28\xcb\xe2\x1b\x14\x31\x28\x36\x4b\x04\xbe\x31\xad\x49\x2f\x48\x58\xb6\x1b\xb3\x6c\xb8\x5f\x50\x82\x14\x5a\x6a\x00\xbc\xd7\x19\x6a\x0d\x94\x9c\x53\x47\x70\x2d\x40\x0e\xcd\x25\xe9\x1a\x10\xa3\xd0\x0d\x7c\xd8\x04\xc9\x0e\x30\xe1\xbd\xbc\x5e\xc4\xd5\x12\xbe\x90\x17\x38\x97\x88\x02\xeb\xe6\x65\xd0\xa2\x86\x67\x71\x9a\x8a\xc9\x69\x19\x96\x55\x31\x81\xa7\x37\xd0\x6b\xe2\x9b\x7d\x7f\xe0\x6c\xfc\xbe\xfe\xa2\x83\x2a\x53\x8b\x4d\x10\x04\xec\x70\x11\xf3\x44\x89\x7a\x0d\xac\xb0\x09\xb3\xf7\xfc\xe9\x03\x93\xff\xf6\x0e\x57\xbd\xb9\x61\xba\x24\xdf\x68\x34\x71\xd8\x68\x02\x0e\xf6\xdd\x54\x75\x55\x66\x24\x70\xc0\x08\x57\xe3\x23\xa2\x42\xec\x4a\x20\x0d\x5a\xb7\xcc\x71\xf0\x39\xbd\xc0\xcf\x1a\xb1\xf7\xf2\xfa\xc3\x97\xe2\x33\x78\x49\x1c\x98\x85\x49\xb4\xf0\xac\x85\xb7\xf2\x26\x27\x1a\x84\x59\xc1\x87\x5f\x14\x0f\xc5\x32\x85\xd5\x4d\xd2\x12\x86\x00\xe5\xfb\x25\xac\xa7\x74\x17\xde\xf0\x0e\x99\xf4\x88\x94\xef\x2b\x7e\x5e\xca\x58\x96\xd2\xd3\x18\xd0\x37\x3b\x01\x78\x6d\xd1\x37\xe4\xdb\x9d\x50\x30\x49\x04\x71\x7c\x2c\x6a\x24\xe3\xe9\x8d\x3a\x45\x29\x98\x97\x16\x73\xaf\xb3\x09\xe2\x4e\xc8\xd7\x48\xce\xdb\xee\x9b\x70\x0e\x33\x5a\x5a\x6e\xe0\x10\xca\xb9\x2c\x35\xef\x22\xbf\x1b\xea\x11\x0b\x5f\xad\x65\x62\xbe\xa6\x0e\xbb\x2a\x60\xcc\x75\x53\xde\x65\x6a\x23\x54\xdc\x58\x70\x5c\x26\xe4\xe0\x0e\xd8\x45\x60\xd4\xc0\x3f\x64\x66\x39\x5c\x7a\xb5\x8e\x60\xe7\x63\xd7\x02\x86\xee\x40\x41\x69\x72\xd5\x5b\xdb\x31\x69\xae\xf4\x78\x7b\x56\x24\x5c\x99\x81\xa7\x6d\x29\xdc\x21\x98\xc7\x7d\xf3\xba\xb7\x6c\x6a\x21\x35\x55\xf3\x24\x8a\xe7\x72\x21\xa3\x4b\xb6\xf8\x68\x8a\x00\xcc\x9d\x77\x00\xa6\x8a\x34\x60\x1c\x28\xf4\x41\x1b\xa2\x66\xdf\x23\xa2\xc8\x91\x4b\xf0\x11\xa3\x98\x8c\x46\xbd\x9d\x28\x98\xa3\x8c\xdd\x30\x8e\xca\x9b\x60\x48\x84\xd4\xe6\xee\x4a\x92\xbd\x29\xfa\xff\x72\xe6\xff\x8e\x9c\xa9\x75\x9b\x8a\xbd\xc4\xce\xee\x01\x8a\x5d\x5d\xcf\xe7\x6f\xdf\x3c\x65\x0b\x6b\x6f\xdf\x13\xcd\x38\xa7\x3b\x86\x6b\x0b\x6b\x0c\x58\x7d\x1e\x5e\xc2\x36\x02\x87\x4d\xb2\xdb\x70\x0e\x5d\x44\x8f\x33\x10\x58\x03\xd1\x42\xf6\x2c\x28\xc7\x3d\x49\x33\x76\x6d\x61\x3f\xd4\x62\x31\x01\x77\x62\xd3\xc2\xef\x1b\x08\x97\xab\x70\x1a\x16\xb8\xe0\xef\x3f\xf4\x43\xc2\xe5\xed\xfa\xfa\x44\x02\x53\x49\x0f\xb1\x7d\xa9\x62\x4a\x67\xa9\xb2\x3e\xfd\x29\x19\xe0\xf5\x71\x8e\xd1\x70\x82\x19\x79\xb5\xd7\x66\x3e\x30\x1d\x9f\x02\x1d\xb7\xb7\xe2\x2c\xfd\x26\xbd\x02\x5c\x6b\x33\xa0\xc8\x8e\x32\x0d\x1f\x20\x46\x8c\xc7\x2d\xba\x49\x5b\xb9\xf7\xf6\x56\xc3\x34\x2c\xa7\x3c\xf3\x23\x51\x9f\x9d\x89\xd4\x78\xc8\x8a\x76\xb3\x75\x30\x2b\x4a\x8a\xd1\x33\x0a\x98\x23\x19\x9c\x16\xca\x48\xa6\x06\x27\x49\x67\x03\xe5\xf2\x60\x8b\x1a\x41\x80\x0e\xf8\x12\x49\xd8\xa1\x7a\xed\xbc\x9b\x1e\xb4\xb1\xd1\xbb\x97\xdd\xd8\xfb\xac\xec\x1c\x38\x7f\x00\xaf\xb5\x8f\xd6\xe0\xbb\xd6\x89\xad\xde\x3b\xe6\xbd\x72\xba\x54\xd8\x02\xe5\x96\x83\x2a\xc6\x38\x34\x86\xbb\x4f\x78\x47\x27\xb8\x10\x07\x76\x28\x5f\xb8\x3e\xcf\x90\x37\x8c\xce\xd2\x4f\xeb\x0e\x7f\x44\xa0\x59\xcd\xa1\xea\x23\x28\xef\x45\xe4\x2d\xd7\xd3\xda\xd3\x3d\xce\xee\xe9\x19\x2b\x42\xf3\x06\xd8\x4e\x65\xe8\x31\xb4\x57\x30\xc0\x15\x8a\x7a\xe0\x38\xe0\x0e\xaa\xc5\x57\xb8\x4c\x14\x3c\xc2\x50\xab\xcc\x51\xc2\xd2\x9e\x60\xb9\xda\xa2\x91\x71\x81\x29\xaa\x06\xc6\x64\x7e\xb8\x4c\x37\x21\xf8\x55\x03\x8d\x03\xf1\x26\x8f\x36\x61\x1e\xc5\x37\x3a\xe6\xe5\x06\xc8\x98\x57\x86\xe6\xe1\x7d\x6c\xf3\x08\xce\x05\x3e\x37\x7c\xf1\xa6\x0b\x6e\xa2\x21\xe4\x7d\xab\x3e\xbb\x78\xdf\x66\x25\x3f\x0d\x2c\x13\x8b\xa1\x9d\x96\x69\x50\x62\x75\xae\x13\xf7\xd0\x4d\xfa\x16\x6a\xfb\x12\xe8\xfc\x65\x6a\xd5\x65\x57\x33\xf0\xbf\x77\x5a\xa7\xc1\x89\x74\x2d\x54\x57\x78\x64\x68\xa5\x8a\x8c\x03\x25\x3b\x47\x98\x6a\x51\xa9\xae\xd5\xfa\x5a\xc6\x18\x6b\x1f\xf3\x04\x3a\xb5\x6b\xb7\x1c\xda\x2c\x85\xce\xed\x04\x2f\x9f\xf9\xcd\x06\x88\x2f\x4a\xd3\x8b\xa9\xb8\xb4\x66\xe0\xc6\xd8\xaf\x97\xb5\xb8\x0c\xa5\xa8\xa5\xb8\x90\x37\xb4\xdc\x4b\xb4\x14\xe7\x29\x38\x25\x40\x63\x3d\x8a\x4a\xee\x0a\xef\xc2\x57\x3e\x09\x36\x05\xaf\x24\xc6\xf5\x52\x50\x42\xe5\x89\x51\x0c\xf6\x69\x98\xa4\x60\x05\x87\xf1\xd7\x32\x5c\xca\xfc\x17\x00\x5d\x39\x2c\x38\x50\x91\xaa\xc8\x70\xa9\xfc\x3f\x0d\x62\xb1\x90\x3a\x20\x22\xc1\x31\x02\x5e\xe0\x91\xf1\x3b\x92\xe2\xd8\xcc\xf5\x3b\xf8\x4c\xc9\x09\x96\x86\x38\xd7\xf7\x8f\x3e\xf8\x5b\x1b\xf6\x60\x07\x33\xb3\x10\x94\x2b\xa0\x96\x0f\xba\x91\xaa\xda\xc3\xd8\xe4\xf0\xf3\xde\xc6\x26\xd8\x23\x4e\x6f\x1e\x9e\x52\x11\x2a\x9e\x24\xe6\xe1\xe2\x82\xeb\x1d\xd4\x9e\xe1\xb8\x3d\xce\x35\x91\xe4\xb0\x05\xe2\x05\x89\x57\x95\x01\x50\xec\x1a\xcd\x23\x74\xe4\xf4\x12\xa8\x00\x37\x6c\xbd\x65\x14\xc6\x1c\x05\x8f\x43\xe0\x7b\x80\x97\x62\x6c\x96\x1a\x59\x98\xcc\xa0\x35\xec\x3c\xfc\xcc\x5a\x34\xe0\x37\xc0\x7c\xc9\x80\xc5\xca\x8d\xb4\xc5\xea\xf5\x98\x1c\xee\x96\x43\x43\xa1\x19\x80\x1d\x39\x6f\xb3\x8b\x73\xda\x7e\x2a\x0e\x5b\xaf\xbc\x18\xb5\x5d\x9d\xee\x60\xed\x08\x93\x7f\x1d\xa2\xc7\xf8\x35\x6d\xcf\x7f\x74\xdb\x6d\x65\x3a\xae\x50\xcb\xce\x54\x54\x23\xf6\x44\x42\x69\x77\x54\x4d\xe2\xee\x2e\xe8\x0a\x0b\x4f\xa6\x2d\xb7\x75\xc8\xce\xb4\x86\x68\x8f\xd6\x72\x0c\xd1\x2d\xd2\x8b\x7d\xe3\x51\x5a\x37\x54\x0d\x0d\x3c\x72\x36\x09\x8c\xb2\x5a\xed\x93\x11\x71\x7a\x03\x19\x87\x66\xab\xfd\x2e\x0e\x15\xa8\x16\x4d\x8f\x30\x19\x32\x40\xf3\xa9\x1d\x77\x74\xa7\x85\x2d\xee\x00\xa4\x81\x50\x3b\xea\xc7\x9b\x2f\x03\x7a\x51\xdb\x2f\xc3\x7a\x71\x58\xd3\xed\x6a\xbe\x28\x1d\xd4\xa3\x17\x59\x28\x0c\xdb\x2f\xfd\x7a\x91\x8d\x11\x44\x66\x47\xc5\x88\x4d\x8d\x11\x83\xea\x7a\x2f\xd5\x98\x61\x5c\xbc\xad\x1b\xdd\x65\xfb\xf1\xe6\x4c\xbf\xd5\xa9\xad\x99\x41\xab\x73\x47\x7b\x72\xab\x2d\x33\x68\x75\xd6\x56\x6d\x68\x1e\xdd\xc6\x4c\x57\x06\x68\xd8\xea\xdc\x23\xe7\x33\x6c\x75\x2a\x2c\x48\xc9\x16\x67\xa9\x6b\xc8\x30\xcd\xbb\x34\x81\x43\x72\x9e\xf2\x00\x14\x0f\x6c\x86\x42\xbc\xff\xa0\x63\x82\x5b\xe0\xed\x94\x33\x03\x73\xe8\x60\x9b\x11\x45\xba\x21\x0b\xa3\xdc\x0e\x0e\x2f\x55\x84\xf0\xc2\x9a\x56\x84\xde\xad\x0a\x9c\x5d\xea\xe8\x20\x0c\x1b\xb0\xe1\x71\xe1\x07\x2a\x12\xea\x7f\x29\x74\x94\x70\xc4\x80\x4d\xa8\x84\x7e\xb2\x21\x63\x22\x63\x28\x44\x11\x26\x37\x75\xad\xb6\x03\xc0\xff\xd8\x5a\x81\x3f\x07\x19\xe8\xc1\xbb\xa9\x7d\xf5\x06\xfb\x30\x54\x8c\xb7\xf8\x1a\x9c\x63\xd5\xa8\x70\x1b\xaf\xe4\xae\xf6\xcd\xd7\x67\x67\x6f\xee\x13\x4c\xa3\x4c\x3e\x53\x39\x21\xf6\x02\xfc\x27\x98\x5f\x03\x3b\x0c\x95\x0c\x95\x03\x7e\x29\x16\xeb\x30\x2f\x64\x79\x5c\x95\xab\xc3\x9f\x4d\x4c\x0c\x0e\x47\xd5\x91\x05\x63\x18\x89\xb5\x7a\x43\x7b\x76\x7b\x6c\x0e\x81\xa5\x89\xc8\x72\xb9\x94\xab\x28\x01\x4b\x0a\xcb\x2e\x0a\x27\x20\xe7\x0c\xb3\x35\x22\x57\xaf\xfa\xa9\x47\xe4\xdc\x7a\x10\x6d\xcb\xc0\x3a\x06\x04\x9f\xcc\xfe\x5a\xc8\xaa\x23\x4a\xd7\x0f\x9d\xd6\xbf\xeb\xb3\x0a\xd3\xf1\x18\x68\xd7\x16\xb5\x28\x5d\x77\xa7\x13\x14\x0b\x2c\x6e\x60\xca\xce\x8f\xfe\x2e\x8f\x57\x20\x56\xbc\xe6\x97\xf2\xa9\x5d\x5a\xcf\x59\x66\x9f\x00\xb5\x67\xb9\x53\x8c\x50\x05\x8b\x28\x1e\xb8\xa1\xf8\x7f\x75\x8d\xe6\xd4\xdb\xb4\x42\x1c\xfc\xb1\x63\x51\xa8\x14\x07\xea\x86\x1e\x32\x9b\xa6\x73\x2c\x26\x49\xce\xc9\x2a\xe4\x6e\xc1\x13\x7e\xa5\x02\xe0\x1b\xdd\x8f\x22\xd9\xaa\x39\x96\xfd\xce\xc5\xdf\x89\xb3\xf4\x1d\x16\x49\x81\x31\xe6\xc3\x2e\x2b\xd7\xb5\x36\xf8\xe2\x4c\x6e\xb2\x98\x6a\x83\xa1\x85\x66\xa7\x9e\x22\x31\x8f\x43\xea\x6e\xec\x51\x61\xd4\x11\x80\x54\x76\x1d\x4e\xcf\x19\x92\x52\x30\x75\xfb\x4f\x59\x88\xd8\xf0\x39\x67\xd2\x6a\xc6\x5f\x67\x18\x72\x44\x32\xa2\x51\x9e\xa8\x1e\x95\xd0\xd8\xe8\xaa\x13\x87\x4f\x38\x65\xc7\x81\x49\xe2\x1f\x9d\x7c\xd3\x23\x7e\x87\xdf\xc1\xb2\x07\xaf\x05\xb6\x5d\x58\xc5\x25\x6a\x3b\x66\x10\x04\x46\x41\x4a\xd8\xb0\x4d\x59\x00\x7e\x09\x38\xa2\x4b\xf2\x5a\xf0\x37\x9b\xfd\xe8\x3e\x4e\x68\x9c\x89\xf1\x38\x2f\xa9\x48\x0d\x40\xd1\xfb\x80\xb0\xf3\x7c\xf6\x6b\x40\x1e\x50\x42\x5c\x20\xb2\x08\xea\x2f\x1f\x3d\x02\x27\x69\xe5\xe0\xeb\x44\x57\x79\xdf\x00\xb6\x84\x18\xb4\xc8\xf2\xf4\x32\x42\x97\x78\xcd\x3b\x8a\x93\x71\x73\xc9\xd8\x72\xce\x12\xdb\x59\x9b\xcc\x05\x4d\xc5\x5c\x16\x3a\xce\x22\x78\x09\xf2\x6d\x1d\x52\x9d\x98\xc6\x7f\xc3\xaf\x90\x23\x8b\x0a\x5c\x60\xb9\x2c\xd8\x07\xfb\xf9\xe9\xeb\x57\xaa\x6c\x7b\xa9\x6b\xac\x4d\xe2\x8f\x70\xd7\xe8\x60\xfe\xb4\x7f\x5a\x5c\x13\x80\x55\xf3\xf9\x54\xbb\x86\x66\x66\xf6\x63\x0d\x1a\xd8\x12\x45\x09\x93\xd6\x34\x63\x21\xe9\x4a\x88\x2e\x43\xc4\x94\x97\x4c\xc5\x15\x4b\xc1\x3a\x1b\x90\x01\x82\xab\x3a\x15\x1f\x71\xfb\xb9\x24\x61\xf1\xf3\x1d\x97\x20\xde\xd2\x2a\x1e\x21\x30\xbd\xa0\x77\x1c\xef\xdc\x58\x02\xb2\xa2\xc5\x26\x5e\x9d\xb6\x56\xcf\x46\xcc\x3c\x4f\x68\x48\xd5\xf5\x84\xa3\xad\x06\x90\xee\x87\xe4\xf6\xa0\xab\xd3\xec\xd8\xd1\xb9\xc4\x8c\xc7\x06\x9c\x0e\x14\x8c\xae\x02\x66\x1b\xcf\x47\x31\xe8\x4d\x94\x20\x3c\x44\xe9\x37\x99\xba\x2a\x8f\x27\xb0\xd6\x4c\xe6\xe2\x5f\x17\x0f\x9a\x0f\xed\x3c\x28\xa0\x63\x4d\x0e\x0d\x43\xb5\x2c\x3c\x2e\xe7\x69\xe2\x02\xd6\x44\xbb\x65\xf0\x1c\xbf\xf8\x26\xd2\x31\xa2\xad\x71\xc4\x75\xac\x01\xb3\xc3\x0b\x34\x1d\x93\x30\x76\x94\x04\xe1\x5e\x2c\x06\xb0\x76\xd8\xcc\x22\x4e\xc0\x8f\xa1\xa3\xf3\x59\xb9\x8f\x57\x01\x31\x85\xc2\x18\x1b\xfa\xe6\xa5\x87\xd4\xf6\x51\xde\x58\xbe\x63\xe9\x97\x7b\x58\x13\xfb\xfe\x03\x96\xe6\xfa\x8a\xd7\x6f\xd9\x8f\xbf\x12\x2e\x0b\x99\xe8\xb8\xe6\xb3\x77\x89\x5a\x59\x84\x30\x15\x0f\xae\x00\xcb\x46\xf4\x9c\xad\x94\x22\xfa\x0d\xe2\xfc\xb3\x3f\xff\xeb\xbf\x62\x16\x8a\x65\x82\x7d\x7c\xf1\x37\xfc\x8d\xf9\x01\xd0\x38\x16\xf0\xf7\xfb\x23\x7c\xf9\xa1\x5e\xd2\x84\xf9\x5f\xa2\xdb\xca\x9b\x98\x58\x23\xb1\x10\xa6\x7e\x8f\x30\xf0\x85\x99\xdf\x0c\xcd\x1d\x91\xa4\xc9\x21\xc9\x38\x6d\xc8\x63\x43\xe0\x1d\x1c\xb3\x16\x8c\x52\xa5\xc2\xa0\x3e\xbc\x2b\x06\x4f\x34\x22\x19\xea\xce\xdd\x49\xf5\x50\x2b\xc1\xf6\xa7\xf8\x15\x8e\x72\xa4\x04\xe8\xaf\x94\x38\xc7\x55\x54\xad\x40\xfc\x16\xab\x48\x89\x73\xcd\x85\x24\xa8\x9c\xc5\xb5\x6e\x06\xd6\x7d\x92\x30\x51\x27\x60\x76\xa9\xf0\x56\x35\x18\xce\xa0\x06\x55\x16\x9a\xa3\xc2\x4a\x24\x8a\xb7\x68\xd9\x0b\x7f\x9c\xfc\xbf\x31\xc9\x35\x8f\x78\x6b\x0b\xd4\x17\x2e\xb7\x89\x7a\x25\xdd\x3a\xb0\x23\xf4\xf4\xb6\xdb\x8a\x4d\x39\xfa\x59\x03\xa1\x90\x1a\x0f\x26\x48\xb6\xda\x24\x4e\x90\x6a\x8b\x51\x62\x82\x12\x83\xda\xbf\xe9\xe4\x12\xf6\xdd\xa9\x15\x02\xc9\x67\x80\xb0\x0f\x0a\xbf\x43\xa5\x6b\x5c\xff\xd5\x1a\x36\x39\xfa\xa7\x0d\x97\x97\xea\xd3\x88\x57\x00\x2b\xfd\x96\x20\x23\x07\x6f\x8b\xdc\x8f\x9c\x10\xc5\xe0\xb4\x3a\x7d\x5e\x71\xa0\x14\x0c\x35\xe9\xf7\x77\x47\x60\x76\xa0\xdb\x10\xa0\xd4\x0e\xa8\x0a\xdf\xf3\x95\x77\x87\xbe\xb0\x75\x7f\x1b\x73\x75\x7c\x61\x32\x0b\x49\x6a\x28\x81\xa2\xca\xfa\xdf\x02\x17\x3c\x8e\x63\x8f\x81\xef\x56\xfa\xa8\x6b\xfd\x57\xa8\xf0\xa6\x62\xa2\x24\x41\x8e\xca\x56\x1b\x3c\x38\x33\x4d\xce\x89\x2e\xfa\xa8\x0b\xa2\x47\x0c\xbc\xd2\x42\x0d\x5d\x0d\x40\xcc\x9c\x6d\xb1\xe2\x4e\xd9\x79\xec\x76\x02\xb6\xe9\x15\x4c\xb0\x8c\xc2\x18\xa3\x6a\xb0\xf9\x94\x51\xf8\x2c\x2a\x16\x61\xbe\x7c\x97\xd0\x51\x9c\x23\xfb\x45\xd7\x84\xe0\xbc\x8e\x85\x3b\x60\x4b\xa4\x62\x56\xb2\x25\x54\xbb\xc5\x6a\xbf\x60\xed\x14\xad\x0a\x8d\x1a\x31\xcd\x86\xbd\xed\x20\xab\x2b\x4a\xf7\x95\xb9\x4c\x90\x91\xa3\x10\x9f\x84\xcb\x9a\x81\x3d\x42\x04\x2c\x5a\xc6\x5b\x47\x8f\x12\xa8\x1b\x6e\x0a\xed\xae\x7c\x0b\xa3\x79\x39\xae\x21\x9e\xf5\xb0\xdf\xb1\x35\x00\xcc\x6f\x6c\x73\xa0\xe7\xdb\x6f\x82\x5f\xe2\x4b\x4f\x77\x70\x9a\x8c\x5d\x1f\x86\x4b\xca\x50\x58\x68\xae\xa5\x63\x19\x85\x0e\x7e\x03\x71\x13\xdd\x2c\xf8\x26\x65\xc3\x5a\x4c\x68\x92\xdc\x06\xe3\xac\xfc\x19\x7c\x04\x1a\xd4\xac\x26\x7a\x37\xdd\xe1\xdd\x61\x14\x5e\x27\x32\x5d\xb5\xf0\x80\x3d\xd6\xc2\x83\xa6\xf5\x63\x10\x31\x9c\xf0\x80\xc2\x52\x3a\xd5\xad\x3d\xc6\xc3\x46\xfd\x70\xaf\x43\xd4\x29\x31\xfb\x92\x9c\x2c\x1f\x0b\xed\x1d\x18\xbd\x1e\x16\x6c\xab\x37\xbc\x01\xf6\x8d\xf2\x3d\x12\x98\x1d\x08\x76\xc9\xbe\x4e\xdb\xba\x2f\xa7\x69\x4c\xa4\x3e\x41\xf1\xb2\x25\x26\x9a\x42\xc2\xc8\x82\x77\x85\x7c\x83\xfd\x50\x5e\x16\x47\xf5\x0f\x27\x49\xb5\x79\x55\x6d\xe6\xa0\x15\x8f\xec\x87\x93\x4d\x54\xbe\x4b\xb2\x34\xab\xd0\x25\x5e\x1a\xb1\x02\x6b\xe5\xca\x53\x47\xa6\x68\x77\xc0\xe6\x5a\x09\x55\x50\x9b\x45\x01\x46\x86\x3f\x54\xf6\xa0\xd9\xe0\xe3\x54\x49\x2b\x63\x4e\x92\x25\xe5\xb4\x72\x73\xb0\xf6\x14\x91\x32\x06\xba\x62\x28\x3d\x35\x21\x4d\x2d\xd4\x97\x8c\xb5\xb6\x7b\xee\x98\x13\x83\xe9\x57\x52\x02\xad\xd4\xeb\x1a\x98\x6d\x1d\x2e\xb9\x6f\x5f\xb2\x95\x52\x7c\x4b\x8c\x76\x45\x5c\x95\x6e\x8a\xe8\x9c\x03\xc1\xe8\x09\x12\x14\x75\x8a\x36\xd0\x4a\xdf\xe4\x78\x91\x99\x31\xda\xda\xca\x04\xd7\x92\xb9\x0c\xa4\x9e\xd1\x1d\xcc\xe5\x6e\x4b\xe5\x6a\x0a\x39\x9e\xca\x60\x97\x06\xfe\x94\xcc\x6d\xc3\x40\xe1\x85\xe4\xae\x40\x2e\x9a\x83\x57\x8b\x35\xae\x49\x40\x5f\xc2\xb8\x48\x71\x09\xd4\x1e\x66\xad\x50\xe5\xf1\x78\x78\x74\xad\x69\x0e\xf1\x78\xf2\x54\x09\x71\x8c\x03\xf9\xdb\x3a\x9a\x55\xc1\x72\x7d\xe4\x39\x14\x22\x13\xff\xde\xb9\x67\x04\x71\xff\xdc\xb3\xd3\xdb\x86\x58\x3b\x52\xcf\x09\x1b\x7b\x2c\xbd\x44\x1c\x5d\xd2\x01\x89\x52\x51\x6d\x93\x96\x14\x5f\xc0\xf0\x41\x98\xe0\xe9\xae\xef\xb0\x84\x36\xe3\x73\x64\xfc\x8e\xcf\x96\x81\xc5\x45\xe6\xa3\x1d\x64\x09\x16\x48\x4a\x27\x2a\x8a\x9b\xa2\x94\x9b\x29\x32\x17\xc0\x8a\xa3\x0b\x19\x9b\xf4\x35\x45\x41\x26\xeb\xb4\x28\x8f\x88\x76\x36\x3f\x6d\x67\xe0\x99\xa1\x74\x09\x72\x6f\xe4\x76\xff\xcc\x34\x48\x9f\xcf\x34\xcb\x7d\x1d\x16\x6f\x72\xb9\x8a\xae\xcd\x88\xb0\x94\x74\x90\x95\x6d\x4f\x83\xc7\x31\xbf\x3e\x9a\xcd\x26\xe2\xcf\x0c\x25\x48\x58\x55\x46\x0a\x02\x07\xa1\xf1\x59\x48\x03\x6d\xe7\x1a\x2f\xb4\x15\xaa\xb1\x3a\xdf\x8b\x56\x4e\x87\xc7\xa1\xf2\xab\x5c\xa0\x3c\x79\x95\xf2\x42\x3a\xe1\x6d\x2e\xc9\x67\x1e\xa0\x60\x10\x02\xba\x4a\x73\xd8\x93\x1c\x32\x17\x4a\xd3\xa3\xe3\x87\x27\xf5\x72\x56\x23\xfc\x35\x42\x12\x4e\x7c\x37\x72\xb8\x67\x7c\x16\x83\xe4\x4d\xe7\x47\x21\x8d\x5f\x39\xf1\xef\x38\x4a\xf0\x24\xaf\xdb\x3d\x1e\xe9\x3e\x2a\xbb\xdf\xf4\x2a\x86\x92\xfb\x38\x12\x5b\x78\x03\xfd\x3a\xce\xfc\x3a\x19\x7e\x95\xb3\xef\x0d\x1b\x2b\x0b\x12\xac\xe2\xec\x06\x64\x85\x07\xeb\xef\xb6\x7f\x12\x82\x92\x05\xf1\x81\xe1\x63\xdd\xd4\x5a\x07\x5b\x02\xbf\x8d\x18\x71\x2d\x96\x5c\x8f\x01\x37\xb3\xfb\xa3\x66\x82\x5f\xdb\xb6\x4e\x1c\xb8\x3b\x3c\x3c\x9c\xe9\x1f\x5c\x77\x93\xf1\xff\xc9\x57\xbe\x2f\x90\xae\x2a\x09\xfa\x96\x76\xda\xb4\x36\xbb\xc2\xe1\xb6\xc2\x80\x24\x8f\x5e\xc7\x39\x2c\x9c\x38\xc0\x3d\x0c\xbf\xa6\x64\xea\x0b\x9d\xb3\xd4\xaf\x71\xff\x26\x68\x17\xc0\x1c\x0e\xb0\x03\xff\x24\x7d\xa1\xdc\x03\x5b\xfa\x8c\x5f\x94\xa1\xf2\xb4\xbc\xd6\xa9\xd1\x53\xb4\x6f\x17\x54\x1c\x5f\xe5\x2a\x54\x43\xa6\x82\xda\xb8\xb0\x1d\xc1\xd8\x8a\xf9\x24\x1a\xeb\x39\x90\xdc\x94\xa4\x04\xa7\x15\xa4\xa8\x36\x5f\x95\x5a\xe2\x38\x39\xab\xbd\x8d\x36\x61\x5d\x07\x14\x6d\x05\x15\xee\x08\x84\x78\x95\x96\xea\x60\x2f\x82\x44\x58\x24\x29\xd6\xe1\x25\xf8\x54\xea\xc2\x8e\x61\x93\x84\xc6\x99\x53\xb6\x4a\x9d\x6d\xa3\x63\x3c\x28\xf9\x35\x6a\x78\x4c\x5a\xc5\xc7\x43\x5d\xd0\xc4\x82\x1f\x1e\x6e\x6c\x14\xde\x94\xdd\x3b\x27\xef\xb0\x8e\x49\x29\x5c\x95\x5a\xae\xd3\x8e\xd3\xc9\xce\x19\x93\x7e\x7d\xe0\x46\x7c\x3a\x1a\xa9\x8c\xdb\xc0\xc9\xcc\x1d\xac\xc3\x9f\x2c\xa1\x6c\x2c\x1e\x15\xf9\x75\xf3\xc8\x8d\xbc\x2f\x05\x0d\xc9\xfe\x45\x05\xd0\x53\x1e\xb3\x55\x60\x37\x43\x52\x9d\xc2\x66\x30\x22\xd5\xf4\xaf\x54\x38\x8a\xad\xb1\x66\x48\x4a\x47\x69\xd4\x30\x6e\x61\x89\x5b\x51\xda\x0c\x49\x39\xa1\x57\x36\xf3\x54\x96\xc4\x7c\x59\xd3\x91\x0d\x0c\x07\xfc\xc5\xa3\x47\x6e\xba\x08\xfc\x2c\x95\x13\x21\x7f\x2a\x03\x12\x32\x9a\xd8\x21\x21\x58\xec\x5b\xd1\x06\x2a\x4b\xbc\x7a\x81\xaa\xea\x68\x16\xee\xfe\x53\x01\x6c\x30\xa3\xc9\x85\xb1\x38\x6a\x24\xb6\x86\xcc\x74\x79\x48\x47\xc8\xac\x93\xec\xc3\x11\x33\x6e\xb3\x7f\xc8\x6c\x9f\x08\xd8\x31\xdd\x72\x71\xf2\xfa\xab\xde\x20\x18\x46\xb1\x6d\x6c\x9c\x24\x0e\x05\x6b\xe8\x0a\x0b\x37\xea\xb5\x63\x40\xad\x23\x9e\x66\x80\x4e\x7c\xa7\x9e\x22\x77\x72\x11\x08\xd8\x89\xf3\xbc\xfe\xc5\xf6\x98\x5d\x2d\x13\x01\xae\xc6\xc4\xe1\x99\x23\xf1\xf0\x8b\xe5\x43\x72\x03\xec\x18\x66\x6c\x0e\x39\x16\xd9\x36\x6e\x1e\xef\x1d\xd7\xeb\x0d\xeb\xf5\x45\xf5\x1c\xd2\x6e\x8d\xe9\x15\x59\x47\x50\xaf\x45\x21\x97\x28\x8d\x6a\x93\x07\xb6\x06\x7a\xd4\x28\x82\x76\x04\x50\xb3\xd0\x6b\x87\xe8\xf9\xf6\xd8\x39\x1b\x04\xb5\x08\xd0\x7e\xd1\xf3\x56\x89\xd8\xd8\x78\xbb\x2a\x1c\x04\x7d\x76\x0e\x98\xd3\x25\x14\x9c\xb4\xce\x61\x07\x15\x02\x07\x22\xc7\x04\xf4\xf2\x48\x69\xbf\x9a\xf2\xf5\xd0\x26\x98\x72\x1c\x90\x73\xc6\x94\x1a\xd3\xa2\x60\x87\x69\xed\x10\x3d\xef\x29\x21\x33\xa1\x23\xbc\x49\xea\x32\x8c\x91\xc0\x93\x89\x8a\x4c\xf2\xab\xe1\x4b\x04\x86\x22\xea\x3a\xc2\x09\xfd\x88\x55\x5c\xf5\xd5\xeb\x1a\x37\xdb\xf5\xfb\xde\x1c\x95\x38\x95\xec\x98\x92\x31\x96\x61\x18\x55\x96\x98\xb6\xe1\x48\x2d\x1d\xba\x51\x9e\x1c\xd5\x50\xe9\xa4\x52\xe3\xac\x64\xc1\x95\xd0\xb5\x58\x27\x8e\x72\xca\xef\x4d\xb0\x53\x37\xbc\x6b\x1e\x2d\x45\x93\x71\x32\x23\xfc\xbb\xbc\xbd\x8c\xa3\x05\x03\xb2\xae\x2b\x6f\x90\x56\xf1\x32\x79\x58\xda\xdd\xcb\xb3\xfc\xe2\xd3\x84\x8d\x4f\x2d\x41\x99\x2a\x6f\xc3\x2b\x65\x64\x56\xfa\xd9\x7c\x33\x1f\xe8\x6d\x9d\x72\xc4\x78\x75\xd2\x51\xc1\x45\x67\xc4\x1a\x05\x5c\xb9\xc9\x54\x7a\x56\x2d\x70\x89\x97\x0b\xb9\xe4\xec\x8b\x5d\x0b\x5b\xb9\xbd\x5b\xd8\x18\x5a\xe1\x86\x50\xcd\xde\xca\x4c\xd2\x85\x80\xea\xf7\x8b\x02\x5d\x29\x23\x51\x2d\x64\xef\xa9\xbe\x8a\x4f\xc7\x9d\x53\xaa\x48\x9b\xe8\xe5\x9f\xf8\xba\x07\x4f\xf5\xfd\xc4\x84\xa8\x7f\x69\xe2\xf1\xaa\x22\xfb\x03\xb3\x70\x60\x5a\x3c\x85\xf7\xb1\xad\x43\x57\x7c\x10\x17\xe6\xb7\x32\xf8\x9c\xc3\x19\x7d\xfd\x75\x3e\x44\xa1\x11\x3c\x5e\x2e\xbd\x01\x54\xa6\xce\xfd\x55\xde\xa5\xcf\x3e\xdc\xc8\xc5\x42\x71\x23\xb9\x38\x31\x1a\x67\x2b\x01\xc8\x78\xa8\x2f\x5b\x44\xf3\x9b\x74\xd5\xf8\xc3\x7a\xea\xf0\x6a\xad\x7e\xa3\x6f\x16\x0a\x8f\x0e\xe6\xee\xe4\x6f\xc5\xde\x2b\x30\xed\xb9\xc0\x46\x73\x77\x1f\xfc\x49\x7d\xa2\x4a\x54\xe9\x9d\xed\x01\xba\xfe\x78\x2f\x2a\x32\x04\xdf\x21\x94\x5d\xca\xd9\xc1\xef\xfe\xe3\xef\x7f\xf8\xed\xbf\xfd\xf0\xaf\xff\xf9\xc3\x3f\x7d\xff\xfb\x7f\xf9\x87\xff\xf9\xaf\xff\xfe\xdd\x6f\xff\xf1\x87\x7f\xff\xfe\xf7\xdf\xff\xf3\xc1\xcc\xf8\x9f\xcc\x9d\x6a\x0c\x30\x05\xf2\x93\xeb\x2c\xd7\xdf\xd0\x06\xe9\x5b\xf2\xcf\x8e\x5d\xf2\xdc\x63\xe1\x0f\x7a\xd7\xa1\xc9\x10\xee\xcc\xee\x31\xd0\xb6\x71\xac\x1b\x3d\xaa\x55\xf2\x35\x7e\x35\xe3\x0b\x4a\x48\xa4\x98\x4b\xea\xcb\x2e\xb5\x25\x05\x35\xef\x97\x14\x16\x6c\x66\x24\x39\x77\xd1\x05\x89\xb5\x75\x33\x9b\x82\x9b\xd7\x77\x85\x7a\xd7\xdc\x16\xe4\xac\xb1\x8e\x44\xca\x3c\x97\x25\x10\x47\xb5\x55\xc7\x4a\xc1\x8c\xc2\x16\xb0\x05\xec\xa7\xbf\x95\x79\x4a\x6e\x9d\xb3\xdd\x07\xb7\x58\x27\x60\x5f\xf7\xec\xde\x65\x7b\xef\xb3\xce\x41\x26\x66\x14\x3d\xe5\x81\xcd\xd6\x62\x29\x05\x6c\xcb\x7e\xeb\x61\xcf\x9f\x92\xb8\x3b\xe3\xe5\x4a\x53\xc0\xaf\x85\xa0\xcb\xd2\xbb\x71\xb8\xab\x8d\x69\x40\xa0\x9c\x42\x87\x0d\x39\xaa\x69\xd5\x7c\x9d\x38\x16\x14\x45\x11\x27\xe7\xb2\xe4\x7b\x0f\x5d\x0d\x4d\x4e\x53\x4d\x41\x97\xe9\x5b\x59\xde\xd7\x26\xdb\x45\x51\x1f\x6e\x49\xef\xd6\xd3\xcc\xb3\x03\xf1\x3a\x01\x87\xb6\x50\x08\xaf\x18\x08\xa7\x99\x8a\x35\xda\x31\x18\xcd\x51\x31\x1c\x2e\x0f\xc4\x54\x4c\x1c\x13\x80\x14\xb3\x47\xb6\xf4\x32\xdd\x44\x25\x6a\xf9\x65\x45\x89\x04\xf4\x16\xa3\x04\x1c\x6b\x71\x30\x53\x23\xd2\xf4\xbb\xa5\xeb\xb0\xae\x6e\x05\xfe\x98\xd6\x26\x19\xbd\x2d\x6f\xda\x9f\x38\xed\xcf\x9c\xf6\xa7\x4e\x7b\x73\xa7\x7c\x05\x48\x58\x86\xcd\xf4\x69\x2d\x7b\xfa\xe9\xfe\x16\x25\x3b\x36\xcc\x58\x21\x17\xae\x8a\x2f\x2e\x61\x47\x10\x65\xad\x5d\xf9\x84\x4b\x22\x9b\x77\x5c\x7a\x7c\x6d\x26\xf8\xf7\x4f\xaa\xd5\x0a\x7e\x23\xae\x6e\x79\xb1\x70\x13\xf8\xca\x2b\x1c\xb5\x2f\xfe\xda\x7a\x15\x88\xb9\x07\x74\xd7\x0c\xd9\xab\xc7\x67\xa7\xf7\xbc\x0a\x84\xba\x61\x7f\xc1\x51\x45\xf3\x5b\x9d\x85\xa4\x2b\x5e\xf9\x14\x64\x91\x5f\xf2\x6f\x73\xaf\x9b\xf2\xa3\xda\x57\xca\xed\x7a\x4c\xb1\xeb\xc0\xe1\x69\x35\x37\x0c\x80\x38\xa0\x08\xab\x24\xbc\x2d\x16\x79\x34\xe7\x5b\x58\x5a\x67\x0a\x83\xfa\xd5\x2c\x93\xee\x73\x87\x38\x05\xb7\x25\x97\xfe\xbf\x2c\xce\x69\xb2\xfe\x56\xce\x52\x1c\x82\xd6\x7f\x37\xe2\xce\x79\x3d\x87\x0d\xea\x97\x1b\xe2\x89\x0c\x67\xc1\x76\xbd\x7c\x85\xd6\x68\xfb\xe5\x2b\x16\xf2\xd6\xa3\x1e\xb5\x4b\x66\x03\x43\x60\x73\xdc\xc3\x59\xeb\x9e\x4b\x57\x86\x21\xa8\x42\x80\x3f\xbd\xbb\x57\xec\xbc\x76\xbd\x7b\xc5\xac\xf1\x91\xa8\xcf\x19\x4f\x3c\x98\x69\xef\x75\xe1\x0a\x2e\x54\xcf\x39\x57\x13\xd6\x69\xb5\x71\x32\x5d\xb6\x45\xd7\x59\x88\x3d\x6e\x64\x71\x56\xf9\x47\xdd\xc8\xe2\xc0\x31\xb5\xaf\x7b\xdd\x10\x0a\xda\xe3\xa0\x8f\xa3\x5a\x17\xac\xec\x79\x77\x87\x13\x5f\x66\xa2\x36\x4e\x1f\x76\x9f\xa6\x2b\xce\x95\x00\x04\x11\xd1\x1f\x56\x6e\x57\x5c\x76\x1d\x38\x1c\xa8\xdb\x86\x71\x82\x67\xa4\xf7\xba\x2b\x0d\x07\x2e\x3f\x79\xb0\xd3\x9d\x19\xe3\x1a\x47\x6d\x29\x15\xa3\x09\xef\x50\x2a\x46\xa5\x61\xe9\xfc\xd7\x58\x02\xa1\xa2\x7f\x85\x59\x2f\x7d\xc7\xc5\xcb\x30\xb9\xe1\x8c\x47\x4a\x8c\xa1\x6e\xfe\xa7\x72\x9a\x0a\xc7\xc6\xb4\x03\x5d\x37\x8c\xd9\xb2\x22\x42\x71\xa7\xce\xd3\xd4\x2a\xc8\x3a\xf0\xee\xbb\xcd\x06\x4f\xee\xea\xf2\x08\xe8\xef\x6a\xb0\x2d\x95\x64\x9a\xce\x35\x1e\xe4\xf1\x71\x0a\xee\xc0\x53\x73\xc8\x77\x61\xc1\xfa\xfb\x54\xb5\xe0\x8c\xee\x5f\xd5\xe2\xf4\xde\x72\xa3\x02\xce\xe6\x8f\x7d\xa3\x82\xc5\xae\x6d\x45\xf4\x2a\xa0\x37\xd5\x3c\x8e\x8a\xb5\xd5\x3f\x3f\xee\x3a\x85\x5d\xac\x8f\xfb\x5c\x93\xa0\x0b\x29\x86\xaf\x4a\x68\x69\x09\x33\x3b\x55\x4b\x61\xee\x4b\xe0\xaa\x8a\x2d\x06\xcd\xd8\x29\x97\xa8\x6d\x05\xb7\x46\xa2\x47\xaf\xd4\xaa\x23\x9a\xc5\x11\xcd\xda\x88\x3f\xe1\x3b\x0f\xc8\x00\xba\xef\x9d\x07\x3d\x54\xe9\x94\x7d\xbb\xdd\x79\xa0\xf5\xc2\x1f\xec\x76\x83\x1e\x94\x77\x50\x55\xa2\x5f\x57\x61\x09\xdb\x0e\x6a\x08\x1a\x98\x74\x6a\x53\x1d\x01\x88\xb6\x46\x82\x97\x77\x0e\x74\xdd\x99\x0f\xf3\xe8\xce\x0f\x1e\xb4\xbf\x05\x94\xad\xc4\x3b\x19\x3f\x46\xea\x74\xd6\xc7\x49\xcf\x30\x3a\xbb\xda\x06\xa2\x8b\x68\x35\x22\x1d\x19\xc9\xce\x3b\x1b\x76\x55\xca\x5d\xa9\xc2\x61\xad\xdc\x7d\x39\x92\xcb\xc3\x4a\x37\x77\xab\xe6\xce\xc4\x5d\x4d\x33\x37\xee\x76\xd0\xff\xe7\x1a\x55\x39\xe3\xd4\xb8\x84\x3d\xca\x1a\x27\xa7\x25\x3d\x30\x4d\x53\x57\x1f\x12\xae\x3f\x8d\xc2\xde\xd5\xc6\xda\x96\xaf\xdb\xaa\xa0\xcd\x40\x04\xd8\x80\xf3\x9d\x65\xf8\x5f\x10\xf0\xfa\x7a\x69\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\x03\xed\x3d\xc9\x8e\xdc\x48\x76\xe7\xcc\xaf\x88\x26\xba\x25\xb2\x9c\xc5\x94\x0d\xd8\x18\x57\xa3\x0c\x68\xa9\xee\xd6\x4c\x6b\x19\x55\xa9\x1b\xb0\x20\x68\x98\x99\x91\x95\x9c\x62\x92\x14\x97\x5a\xa6\x5c\x17\x5f\xda\x80\x0d\x18\xf0\xc9\x07\x63\xe0\x93\xaf\x86\xcf\xfe\x9e\x69\x63\xfe\xc2\x6f\x89\x08\x06\xd7\x64\x96\x7a\x06\x03\xc3\x02\x5a\x62\x92\x11\x2f\x5e\xbc\x78\xf1\xf6\x88\x9e\xcf\xc5\xd3\x64\x25\xc5\xb9\x8c\x65\x16\x14\x72\x25\x16\x37\x62\x11\x64\x49\xec\x8b\x67\xaf\xc4\xcb\x57\x67\xe2\xe4\xd9\xf3\x33\x7f\x3a\x9f\x8b\x37\x32\x2b\xe3\x38\x8c\xcf\xb9\x81\xb8\x0a\xa3\x48\x24\x97\x32\xbb\xca\xc2\x42\x8a\x62\x13\xe6\x62\x1d\x46\x92\x1a\x7f\x27\xb3\x3c\x4c\xe2\x23\x71\x7b\xeb\xab\xe7\xbb\x3b\xeb\x83\x78\x06\xa3\xd9\x5f\xf1\x37\xb4\x98\xa6\xc1\xf2\x22\x38\x97\xf8\xe5\x35\x3f\xbe\x0c\xb6\xf4\x05\x3a\x9f\xe9\x31\xc4\x32\x89\x8b\x20\x8c\x73\xb1\x95\xc5\x26\x59\xe5\xa2\x48\xc4\x36\xb8\x90\x22\x8c\x57\xe1\x65\xb8\x2a\x83\x48\xc8\x78\x95\x26\x61\x5c\x40\x97\x2c\xd9\x8a\x5c\x66\x97\xe1\x52\xe6\x33\x84\x94\xc9\x8f\xa5\xcc\x0b\x11\xc4\x2b\x78\xce\xd3\x24\xce\x61\x0a\x37\xa9\x24\x48\xd8\x14\x67\x94\xc0\x4b\x03\x65\x26\x82\x5c\x5c\x49\x98\x34\xfc\x2b\xe3\x25\xd0\x2d\xcb\x11\x00\xc2\x5b\x49\xf5\x7b\x9d\x64\xaa\x23\x41\x9b\xd1\x8b\x00\x29\xb5\x16\x49\x99\x89\xbc\x4c\xd3\x24\x43\x4a\x17\x59\x10\xe7\xf8\x8c\xc3\x85\x41\x14\xfe\x26\x28\x80\x10\x08\x0d\xfa\x6c\x83\x22\xf7\xa7\xd3\x70\x4b\x2d\xdc\xe9\xc4\x59\xdc\x14\x32\x77\xe0\x01\xe7\x2e\xaf\x0b\x7c\x24\x34\x60\x49\xe6\xbf\xce\x93\x18\x5f\xac\xb7\xf4\x3e\x4c\xf8\xef\x79\x98\x94\x45\x18\xe1\x8f\x58\x16\xf3\x4d\x51\xa4\xfa\xb9\xcc\xe8\x75\x5e\x64\x00\xef\x52\x3d\x02\x28\x18\x02\x9e\xcf\xc3\x62\x53\x2e\xfc\x65\xb2\x9d\x9f\x27\x87\x17\x61\x31\xc7\xff\x34\x2d\xa0\x75\x10\xdf\xa4\x0b\xe1\x9c\x27\xc9\x39\x2c\xf9\x79\x12\x05\xf1\xb9\x9f\x64\xe7\xf3\x34\x4b\x8a\x64\x51\xae\xe7\x34\xff\xf9\x45\x9c\x5c\xc5\x73\x6a\x0d\xbd\x56\x65\x46\x93\xdc\xa3\x6b\xd5\x05\xfa\xcb\x6d\x5a\xec\x33\xae\x6a\x0f\x3d\xd7\xa1\x8c\x56\xdb\x20\xbf\xd8\xa3\xb7\xd5\x07\x20\x00\x79\xca\x65\xb1\x47\x77\xdd\x01\xfa\x16\xe1\x16\xb8\x2d\xd8\xa6\x7b\x74\xb7\xfa\x00\x84\xab\x2c\x48\x53\x60\xb0\x3d\x00\x54\x5d\xda\x4b\x9a\xc1\xe6\x0d\xe6\xdb\xf2\xda\xa9\x7f\x49\x2f\xce\xe7\x32\xcb\x92\x8c\x38\x6d\x60\x20\xc3\x79\xf4\x46\xb3\xdf\x40\x07\x7a\x40\x44\x6e\x6f\x0f\x45\xb8\x16\xf2\xa3\xf0\x9f\x26\xf1\x3a\x3c\xf7\xcf\xcc\x4e\x70\x60\xa7\x38\xc2\x89\x81\xf9\x1d\x01\x9b\xbe\x86\x1b\xbe\x3d\x04\x9e\xc6\x7f\x61\x08\x87\x41\x01\x4f\x62\xc3\x11\x50\xcf\xb3\x74\xa9\xa1\xb6\xf0\xa4\x8f\xbd\x5f\xe6\x20\x66\x82\x55\x50\x04\xcd\x41\x47\x0f\x89\x4f\xd5\x8e\xef\xd9\x5f\xa6\x81\x46\xc7\x1a\x0b\xf7\xee\x1e\x00\xd4\x56\xdf\x8b\xd8\xf8\xb4\xc7\x10\xd4\xd1\xc6\xd1\x9b\x4e\xa7\x97\x41\x86\xd2\xea\x83\x38\x16\x20\x8b\xfc\xd3\x14\x64\x4a\xc1\xbf\x49\x80\x01\x1a\xdb\x34\xc8\x24\xbf\x52\xd2\xc7\x7f\x5c\x24\x21\xbf\xa9\x4d\xd3\x7f\x29\xaf\x4e\x51\x16\x67\xfc\x91\xa5\x99\xff\x32\x49\x9f\x46\x20\x62\xcd\x5b\x00\x9a\xde\xf0\x0f\x66\x5e\xff\x7b\xe0\xfd\xe9\x04\x44\xa9\x5a\x4f\xcd\x86\x2c\x95\xb1\x29\x89\x24\xff\x71\x4c\xfd\x2a\x21\xe3\x3f\x53\x8f\xf8\x5a\x89\x0f\xff\x04\xff\xc5\x17\x7a\x4b\xfb\xa7\xf4\x80\xaf\xac\x6d\xea\x9f\xe9\x67\xfc\x50\x6d\x3f\x6c\x0d\x5b\xe5\xbb\x20\x2a\x69\xde\x96\x5c\xf1\xbf\xc2\xe7\x17\xf0\x8c\xd4\x9b\x1f\x8c\xfa\x23\x4e\x8c\x66\x3b\x18\xfd\x67\x4e\x1a\xf4\x79\x2c\x02\x56\x6f\xd9\x4c\x84\xc5\xc3\x5c\x94\xb9\x5c\x97\x11\xa9\xa9\x75\x19\x2f\x71\xea\xa0\x03\x37\x41\x21\x62\x89\x5a\x2a\x11\x49\x4a\xb6\x81\x48\xb0\x2f\x3c\x1f\x6a\x35\x80\x00\x17\x41\x1e\xe6\xbe\xf8\x0a\xba\xcb\x6b\x98\x79\x24\x67\xe2\x26\x29\xc5\x36\x3c\xdf\x14\x22\x0d\x72\x54\x91\x16\xc2\x00\x2f\x30\x03\xf1\x38\xb0\x36\xab\x12\x14\x33\x82\x83\xb6\xc8\x01\xfe\x37\xa0\x57\x23\xc4\xf1\x0a\x98\x50\xc8\x60\xb9\x51\x9a\x5e\xb8\x7a\x74\x0f\xbe\x65\x80\x61\x99\x32\xd0\x3c\x95\xcb\x70\x1d\x2e\x61\xd0\x62\xe3\x0b\xf7\x39\xe1\x07\x06\x03\xc0\x5f\x04\x8b\xe8\x06\xda\x6c\x43\x58\x1e\xb2\x12\x40\x63\xe7\xe1\x79\x8c\x5d\xc3\xf8\x32\xb9\x40\x75\x2f\xc5\x29\xdb\x08\xc6\xaa\x20\x14\x25\xc2\xa9\x66\xc0\x3c\x80\x20\x34\x25\x7d\x0f\x5a\x18\xea\x2e\xa3\x50\xc6\x45\x9d\xba\x30\xca\x32\x89\x22\x49\xfd\xb4\x81\x02\x18\x01\xf3\x33\x38\x98\x47\x65\xae\xc0\x5f\x30\x21\x04\x98\x03\xdb\x44\x6c\x4a\x30\xad\x42\xa4\xf0\x56\x12\x25\x2d\x7c\xa1\x87\xcc\xd6\xc1\x52\xf6\xad\x04\x02\x33\x83\x75\x1b\x49\x25\x0e\x26\xea\x12\x04\x37\xe0\x53\x35\x1f\x90\x03\x8b\x30\x26\x3a\x6d\x15\x8a\xd6\xc2\xce\x94\x29\x55\x94\x59\x0c\x53\xc7\x19\x23\x82\x4b\x98\xa6\xcc\xd0\x62\x0a\x34\xb2\xfe\x94\xa6\xd3\x22\xe8\xed\x74\xf2\x36\x36\xf3\x93\x2b\xb0\x00\x75\x0f\x36\x01\x95\x24\xb8\xbd\x05\x14\xc1\x42\xfc\x3c\x14\x47\xc7\xc2\xb4\x79\xc1\x4b\xc6\x62\xf9\xf3\x50\xf5\xd1\xa3\x08\xf8\xa3\xa7\xea\xeb\x97\x00\x8a\x05\x17\x5b\x97\x06\xa3\xdd\x43\x20\x03\x03\x27\x56\x5d\x3c\x61\x0d\xea\x2e\x8b\x6b\xa1\xac\x34\x14\xbb\xf8\xef\x0c\x19\xe6\xe0\xf6\xf6\xeb\x04\xdb\x00\x64\xff\x0d\x9b\xa0\x67\x40\x0c\xd5\xcf\x13\x6e\xa3\x05\x1b\xa6\x56\x93\x19\x0b\x38\x0f\xa9\xa5\xed\x56\x7a\x87\x88\x4a\xbf\x63\xe6\x88\x0c\x0e\xee\x4d\x27\xa8\x08\xa0\xe5\x67\xc7\x22\x0e\x23\x84\x30\x51\xeb\x05\x3f\x09\xc8\x74\x72\x37\xd5\xef\x34\x74\x7f\x27\x4e\xde\x0c\x01\x00\x11\x35\x39\x91\x98\x2f\x70\x9b\xd9\x14\xa5\x8d\xfc\x39\x88\x11\xa4\xe8\x1d\x36\x3e\x14\x36\x95\xe1\x53\x1f\xa1\x11\x56\xd7\xcc\x72\x24\xba\xd5\xcd\x66\x13\xaf\xbd\xdc\x4c\x33\x9a\x1c\x82\xed\x5e\x25\xed\x18\x98\x1d\x75\x8b\xcb\x62\x5c\x04\xeb\x35\x93\xbd\x5a\x0e\x80\xfd\x11\x27\xa2\x20\xb4\xe8\xd6\x5a\x6d\xe8\x72\x69\xd6\x2e\xf7\x1b\x0c\x44\xa8\x60\x9b\xf6\xaa\xb5\x97\x0d\xd7\x4d\xbf\xbd\xe4\xe5\x98\xdc\x4d\x99\xc8\xbc\x26\xf6\xda\xa0\x72\x7c\x1c\x45\x27\xd7\x4b\x99\x16\xa4\xa7\x72\x16\xb1\x86\x52\xa4\xa1\xd0\x65\x51\x7b\xb3\xda\xac\xb4\x8c\x24\x9b\x3a\xfc\x02\xff\x45\xb8\x02\xb1\x7d\x05\xfa\x9d\xbc\xc0\xb7\xb9\xf6\x0b\xd1\x09\x4a\xd3\xe8\x06\x45\x0c\x8a\xcd\x02\x81\x6f\x4d\x6b\xd2\x0b\x12\x96\xed\xc6\x2c\x1b\xee\x17\x94\x20\xb9\x96\x1a\x00\xef\x55\x8a\x5a\x03\x25\xe7\xcc\x12\x5c\x4b\x90\x43\x0b\x49\xba\x06\xc4\x28\x74\x03\x1f\x36\x46\xb2\x03\x4c\x78\x2f\xaf\x97\x51\xb9\x82\x2f\xe4\x05\x2e\x24\xa2\xc0\xba\x79\xe5\xb7\xa8\xe1\x56\x38\xcd\x84\x73\x5a\x04\x45\x99\x3b\xf0\xf4\x1a\x7a\x39\x9e\xd9\xf7\x07\xd6\xc6\xef\xeb\x2f\x3a\xa8\x32\xab\xb0\xf1\x7d\x9f\x1d\x2e\x62\x9e\x30\x56\xaf\x81\x15\xb6\x41\xfa\x8e\x3f\xbd\x67\xf2\xdf\xde\xe1\xaa\x37\x37\x4c\x97\xe4\x9b\x4c\x1c\x8b\x8d\x1c\x70\xb0\xef\x66\xaa\xab\x32\x23\x81\x03\x26\xb8\x1a\x1f\x10\x15\x62\x57\x02\x69\xd0\xba\x65\x8e\x83\xcf\xc9\x05\x7e\xd6\x88\xbd\x93\xd7\xef\xbf\x14\x9f\xc1\x4b\xe2\xc0\x34\x88\xc3\xa5\x5b\x59\x78\x6b\xd7\x39\xd1\x20\xcc\x0a\x3e\xfc\x22\x7f\x28\x56\x09\xac\x6e\x9c\x14\x30\x04\x28\xdf\x2f\x61\x3d\xa5\xbd\xf0\x86\x77\xc8\xa4\x47\xa4\x3c\x4f\xf1\xf3\x4a\x46\xb2\x90\xae\xc6\x80\xbe\x55\x13\x80\xd7\x15\xfa\x86\x7c\xe3\x09\x05\x93\x44\x10\xc7\xc7\xa2\x46\x32\x9e\xde\xa4\x53\x94\x82\x79\x59\x61\xee\x76\x36\x41\xdc\x09\xf9\x1a\xc9\x79\xdb\x7d\x1b\x2c\x60\x46\xab\x8a\x1b\x38\x84\x72\x2e\x0b\xcd\xbb\xc8\xef\x86\x7a\xc4\xc2\x57\x1b\x19\x9b\xaf\x89\xc5\xae\x0a\x18\x73\xdd\x8c\x77\x99\xda\x08\x25\x37\x16\x1c\x97\x09\x38\xb8\x03\x76\x11\x18\x35\xf0\x0f\x99\x59\x16\x97\x5e\x6d\x42\xd8\xf9\xd8\x35\x87\xa1\x3b\x50\x50\x9a\x5c\xf5\xd6\x76\x4c\x92\x29\x3d\xde\x9e\x15\x09\x57\x66\xe0\x59\x5b\x0a\x77\x08\xe6\x69\xdf\xbc\xee\x2d\x9b\x5a\x48\xcd\xd4\x3c\x89\xe2\x99\x5c\xca\xf0\x92\x2d\x3e\x9a\x22\x00\xb3\xe7\xed\x83\xa9\x22\x0d\x18\x0b\x0a\x7d\xd0\x86\xa8\xd9\xf7\x88\x28\x72\xe4\x0a\x7c\xc4\x30\x22\xa3\x51\x6f\x27\x0a\xe6\x28\x63\x37\x88\xc2\xe2\xc6\x1f\x12\x21\xb5\xb9\xdb\x92\x64\x6f\x8a\xfe\xbf\x9c\xf9\xbf\x23\x67\x6a\xdd\x66\x62\x2f\xb1\x33\x3e\x40\x31\xd6\xf5\xfc\xfa\xcd\xeb\xa7\x6c\x61\xed\xed\x7b\xa2\x19\x67\x75\xc7\x70\x6d\x5e\x19\x03\x95\x3e\x0f\x2e\x61\x1b\x81\xc3\x26\xd9\x6d\x38\x87\x2e\xa2\xc7\x19\xf0\x2b\x03\xb1\x82\xec\x56\xa0\x2c\xf7\x24\x49\xd9\xb5\x85\xfd\x50\x8b\xc5\xf8\xdc\x89\x4d\x0b\xaf\x6f\x20\x5c\xae\xdc\x6a\x98\xe3\x82\xbf\x7b\xdf\x0f\x09\x97\xb7\xeb\xeb\x13\x09\x4c\x25\x5d\xc4\xf6\x85\x8a\x29\x9d\x25\xca\xfa\xf4\x66\x64\x80\xd7\xc7\x39\x46\xc3\x09\x66\xe4\xd6\x5e\x9b\xf9\xc0\x74\x3c\x0a\x74\xdc\xde\x8a\xb3\xe4\xdb\xe4\x0a\x70\xad\xcd\x80\x22\x3b\xca\x34\x7c\x80\x18\x31\x1e\xb7\xe8\x26\xed\xe4\xde\xdb\x5b\x0d\xd3\xb0\x9c\xf2\xcc\x8f\x44\x7d\x76\x26\x52\xe3\x22\x2b\x56\x9b\xad\x83\x59\x51\x52\x4c\x9e\x51\xc0\x1c\xc9\x60\xb5\x50\x46\x32\x35\x38\x89\x3b\x1b\x28\x97\x07\x5b\xd4\x08\x02\x74\xc0\x97\x48\xc2\x0e\xd5\x5b\xcd\xbb\xe9\x41\x1b\x1b\xbd\x7b\xd9\x8d\xbd\xcf\xca\xce\x82\xf3\x07\xf0\x5a\xfb\x68\x0d\xbe\x6b\x9d\xd8\xea\xbd\x65\xde\x2b\xa7\x4b\x85\x2d\x50\x6e\x59\xa8\x62\x8c\x43\x63\x38\x7e\xc2\x23\x9d\xe0\x5c\x1c\x54\x43\x79\xc2\xf6\x79\x86\xbc\x61\x74\x96\x7e\x5a\x77\xf8\x03\x02\x4d\x6b\x0e\x55\x1f\x41\x79\x2f\x22\x6f\xd9\x9e\xd6\x9e\xee\x71\x7a\x4f\xcf\x58\x11\x9a\x37\xc0\x6e\x2a\x43\x8f\xa1\xbd\x82\x01\xae\x40\xd4\x03\xc7\x3e\x77\x50\x2d\xbe\xc2\x65\xa2\xe0\x11\x86\x5a\x65\x86\x12\x96\xf6\x04\xcb\xd5\x16\x8d\x8c\x0b\x4c\x51\x35\x30\x26\xb3\xc3\x55\xb2\x0d\xc0\xaf\x1a\x68\xec\x8b\xd7\x59\xb8\x0d\xb2\x30\xba\xd1\x31\x2f\x3b\x40\xc6\xbc\x32\x34\x0f\xf7\x43\x9b\x47\x70\x2e\xf0\xb9\xe1\x8b\x37\x5d\x70\x13\x0d\x21\xef\x5b\xf5\x19\xe3\x7d\x9b\x95\xfc\x38\xb0\x4c\x2c\x86\x46\x2d\xd3\xa0\xc4\xea\x5c\x27\xee\xa1\x9b\xf4\x2d\xd4\xee\x25\xd0\xf9\xcb\xa4\x52\x97\x5d\xcd\xc0\xff\x1e\xb5\x4e\x83\x13\xe9\x5a\xa8\xae\xf0\xc8\xd0\x4a\xe5\x29\x07\x4a\x46\x47\x98\x6a\x51\xa9\xae\xd5\xfa\x46\x46\x18\x6b\x9f\xf2\x04\x3a\xb5\x6b\xb7\x1c\xda\xae\x84\xce\xed\xf8\x2f\x9e\x79\xcd\x06\x88\x2f\x4a\xd3\x8b\x99\xb8\xac\xcc\xc0\xad\xb1\x5f\x2f\x6b\x71\x19\x4a\x51\x4b\x71\x21\x6f\x68\xb9\x57\x68\x29\x2e\x12\x70\x4a\x80\xc6\x7a\x14\x95\xdc\x15\xee\x85\xa7\x7c\x12\x6c\x0a\x5e\x49\x84\xeb\xa5\xa0\x04\xca\x13\xa3\x18\xec\xd3\x20\x4e\xc0\x0a\x0e\xa2\x6f\x64\xb0\x92\xd9\x2f\x00\xba\x72\x58\x70\xa0\x3c\x51\x91\xe1\x42\xf9\x7f\x1a\xc4\x72\x29\x75\x40\x44\x82\x63\x04\xbc\xc0\x23\xe3\x77\x24\xc5\xb1\x99\xeb\xf7\xf0\x99\x92\x13\x2c\x0d\x71\xae\xef\x1e\xbd\xf7\x76\x36\xec\xc1\x0e\x66\x56\x41\x50\xae\x80\x5a\x3e\xe8\x46\xaa\x6a\x0f\x63\x93\xc3\xcf\x7b\x1b\x9b\x60\x8f\x58\xbd\x79\x78\x4a\x45\xa8\x78\x92\x58\x04\xcb\x0b\xae\x77\x50\x7b\x86\xe3\xf6\x38\xd7\x58\x92\xc3\xe6\x8b\xe7\x24\x5e\x55\x06\x40\xb1\x6b\xb8\x08\xd1\x91\xd3\x4b\xa0\x02\xdc\xb0\xf5\x56\x61\x10\x71\x14\x3c\x0a\x80\xef\x01\x5e\x82\xb1\x59\x6a\x54\xc1\x64\x06\xad\x61\xe7\xe2\x67\xd6\xa2\x3e\xbf\x01\xe6\x8b\x07\x2c\x56\x6e\xa4\x2d\x56\xb7\xc7\xe4\xb0\xb7\x1c\x1a\x0a\xcd\x00\xec\xc4\x7a\x9b\x5e\x9c\xd3\xf6\x53\x71\xd8\x7a\xe5\xc5\xa4\xed\xea\x74\x07\x6b\x27\x98\xfc\xeb\x10\x3d\xc6\xaf\x69\x7b\xfe\x93\xdb\x6e\x2b\xd3\x72\x85\x5a\x76\xa6\xa2\x1a\xb1\x27\x12\x4a\xbb\xa3\x6a\x12\x77\x77\x7e\x57\x58\xd8\x99\xb5\xdc\xd6\x21\x3b\xb3\x32\x44\x7b\xb4\x96\x65\x88\xee\x90\x5e\xec\x1b\x4f\x92\xba\xa1\x6a\x68\xe0\x92\xb3\x49\x60\x94\xd5\x5a\x3d\x19\x11\xa7\x37\x90\x71\x68\x76\xda\xef\xe2\x50\x81\x6a\xd1\xf4\x08\x93\x21\x03\x34\x9f\x55\xe3\x4e\xee\xb4\xb0\xc5\x1d\x80\x34\x10\x6a\x47\x7d\xba\xf9\x32\xa0\x17\xb5\xfd\x32\xac\x17\x87\x35\xdd\x58\xf3\x45\xe9\xa0\x1e\xbd\xc8\x42\x61\xd8\x7e\xe9\xd7\x8b\x6c\x8c\x20\x32\x23\x15\x23\x36\x35\x46\x0c\xaa\xeb\xbd\x54\x63\x8a\x71\xf1\xb6\x6e\xb4\x97\xed\xd3\xcd\x99\x7e\xab\x53\x5b\x33\x83\x56\xe7\x48\x7b\x72\xa7\x2d\x33\x68\x75\xd6\x56\x6d\x68\x1e\xdd\xc6\x4c\x57\x06\x68\xd8\xea\xdc\x23\xe7\x33\x6c\x75\x2a\x2c\x48\xc9\xe6\x67\x89\x6d\xc8\x30\xcd\xbb\x34\x81\x45\x72\x9e\xf2\x00\x14\x17\x6c\x86\x5c\xbc\x7b\xaf\x63\x82\x3b\xe0\x8d\xca\x99\x81\x39\x74\xb0\xcb\x88\x22\xdd\x90\x06\x61\x56\x0d\x0e\x2f\x55\x84\xf0\xa2\x32\xad\x08\xbd\x5b\x15\x38\xbb\xd4\xd1\x41\x18\xd6\x67\xc3\xe3\xc2\xf3\x55\x24\xd4\xfb\x52\xe8\x28\xe1\x84\x01\x9b\x50\x09\xfd\x64\x43\xc6\x44\xc6\x50\x88\x22\x4c\x6e\x6a\x5b\x6d\x07\x80\xff\x71\x65\x05\xfe\x1c\x64\xa0\x0b\xef\x66\xd5\xab\xd7\xd8\x87\xa1\x62\xbc\xc5\xd3\xe0\x2c\xab\x46\x85\xdb\x78\x25\xc7\xda\x37\xdf\x9c\x9d\xbd\xbe\x4f\x30\x8d\x32\xf9\x4c\xe5\x98\xd8\x0b\xf0\x77\x30\xbf\x06\x76\x18\x2a\x19\x2a\x07\xfc\x52\x2c\x37\x41\x96\xcb\xe2\xb8\x2c\xd6\x87\x3f\x73\x4c\x0c\x0e\x47\xd5\x91\x05\x63\x18\x89\x8d\x7a\x43\x7b\x76\x77\x6c\x0e\x81\x25\xb1\x48\x33\xb9\x92\xeb\x30\x06\x4b\x0a\xcb\x2e\x72\x2b\x20\x67\x0d\xb3\x33\x22\x57\xaf\xfa\xa9\x47\xe4\xec\x7a\x10\x6d\xcb\xc0\x3a\xfa\x04\x9f\xcc\xfe\x5a\xc8\xaa\x23\x4a\xd7\x0f\x9d\xd6\xbf\xeb\xb3\x0a\xd3\xf1\x18\x68\xd7\xe6\xb5\x28\x5d\x77\xa7\x13\x14\x0b\x2c\x6e\x60\xca\xd6\x8f\xfe\x2e\x8f\xd7\x20\x56\xdc\xe6\x97\xe2\x69\xb5\xb4\xae\xb5\xcc\x1e\x01\x6a\xcf\x72\x54\x8c\x50\x05\x8b\x28\x1e\xb8\xa5\xf8\x7f\x79\x8d\xe6\xd4\x9b\xa4\x44\x1c\xbc\xa9\x65\x51\xa8\x14\x07\xea\x86\x1e\x32\x9b\xa6\x0b\x2c\x26\x89\xcf\xc9\x2a\xe4\x6e\xfe\x13\x7e\xa5\x02\xe0\x5b\xdd\x8f\x22\xd9\xaa\x39\x96\xfd\x2e\xc4\xdf\x89\xb3\xe4\x2d\x16\x49\x81\x31\xe6\xc1\x2e\x2b\x36\xb5\x36\xf8\xe2\x4c\x6e\xd3\x88\x6a\x83\xa1\x85\x66\xa7\x9e\x22\x31\x97\x43\xea\x76\xec\x51\x61\xd4\x11\x80\x54\x76\x1d\x4e\xcf\x1a\x92\x52\x30\x75\xfb\x4f\x59\x88\xd8\xf0\x6b\xce\xa4\xd5\x8c\xbf\xce\x30\xe4\x84\x64\x44\xa3\x3c\x51\x3d\x2a\xa1\xb1\xd5\x55\x27\x16\x9f\x70\xca\x8e\x03\x93\xc4\x3f\x3a\xf9\xa6\x47\xfc\x1e\xbf\x83\x65\x0f\x5e\x0b\x6c\xbb\xa0\x8c\x0a\xd4\x76\xcc\x20\x08\x8c\x82\x94\xb0\x61\x9b\xb2\x00\xfc\x12\x70\x44\x57\xe4\xb5\xe0\x6f\x36\xfb\xd1\x7d\x74\x68\x1c\xc7\x78\x9c\x97\x54\xa4\x06\xa0\xe8\xbd\x4f\xd8\xb9\x1e\xfb\x35\x20\x0f\x28\x21\x2e\x10\x59\x04\xf5\x97\x8f\x1e\x81\x93\xb4\xb6\xf0\xb5\xa2\xab\xbc\x6f\x00\x5b\x42\x0c\x5a\xa4\x59\x72\x19\xa2\x4b\xbc\xe1\x1d\xc5\xc9\xb8\x85\x64\x6c\x39\x67\x89\xed\x2a\x9b\xcc\x06\x4d\xc5\x5c\x15\x74\x9c\x85\xff\x02\xe4\xdb\x26\xa0\x3a\x31\x8d\xff\x96\x5f\x21\x47\xe6\x25\xb8\xc0\x72\x95\xb3\x0f\xf6\xf3\xd3\x57\x2f\x55\xd9\xf6\x4a\xd7\x58\x9b\xc4\x1f\xe1\xae\xd1\xc1\xfc\x69\xff\xb4\xb8\x26\x00\xab\xe6\xb3\x99\x76\x0d\xcd\xcc\xaa\x8f\x35\x68\x60\x4b\xe4\x05\x4c\x5a\xd3\x8c\x85\xa4\x2d\x21\xba\x0c\x11\x53\x5e\x32\x13\x57\x2c\x05\xeb\x6c\x40\x06\x08\xae\xea\x4c\x7c\xc0\xed\x67\x93\x84\xc5\xcf\xf7\x5c\x82\x78\x4b\xab\x78\x84\xc0\xf4\x82\xde\x71\xbc\x73\x5b\x11\x90\x15\x2d\x36\x71\xeb\xb4\xad\xf4\x6c\xc8\xcc\xf3\x84\x86\x54\x5d\x4f\x38\xda\x6a\x00\xe9\x7e\x48\x6e\x17\xba\x5a\xcd\x8e\x2d\x9d\x4b\xcc\x78\x6c\xc0\xe9\x40\xc1\xe4\xca\x67\xb6\x71\x3d\x14\x83\xae\xa3\x04\xe1\x21\x4a\x3f\x67\x66\xab\x3c\x9e\xc0\x46\x33\x99\x8d\x7f\x5d\x3c\x68\x3e\xac\xe6\x41\x01\x9d\xca\xe4\xd0\x30\x54\xcb\xdc\xe5\x72\x9e\x26\x2e\x60\x4d\xb4\x5b\xfa\x5f\xe3\x17\xcf\x44\x3a\x26\xb4\x35\x8e\xb8\x8e\xd5\x67\x76\x78\x8e\xa6\x63\x1c\x44\x96\x92\x20\xdc\xf3\xe5\x00\xd6\x16\x9b\x55\x88\x13\xf0\x63\xe8\x68\x7d\x56\xee\xe3\x95\x4f\x4c\xa1\x30\xc6\x86\x9e\x79\xe9\x22\xb5\x3d\x94\x37\x15\xdf\xb1\xf4\xcb\x5c\xac\x89\x7d\xf7\x1e\x4b\x73\x3d\xc5\xeb\xb7\xec\xc7\x5f\x09\x9b\x85\x4c\x74\x5c\xf3\xd9\xdb\x58\xad\x2c\x42\x98\x89\x07\x57\x80\x65\x23\x7a\xce\x56\x4a\x1e\xfe\x06\x71\xfe\xd9\x9f\xff\xf5\x5f\x31\x0b\x45\x32\xc6\x3e\x9e\xf8\x1b\xfe\xc6\xfc\x00\x68\x1c\x0b\xf8\xfb\xdd\x11\xbe\x7c\x5f\x2f\x69\xc2\xfc\x2f\xd1\x6d\xed\x3a\x26\xd6\x48\x2c\x84\xa9\xdf\x23\x0c\x7c\x61\xe6\x37\x45\x73\x47\xc4\x49\x7c\x48\x32\x4e\x1b\xf2\xd8\x10\x78\x07\xc7\xac\x05\xa3\x54\xa9\x30\xa8\x0f\xf7\x8a\xc1\x13\x8d\x48\x86\xda\x73\xb7\x52\x3d\xd4\x4a\xb0\xfd\x29\x7e\x85\xa3\x1c\x29\x01\xfa\x2b\x25\xce\x71\x15\x55\x2b\x10\xbf\xf9\x3a\x54\xe2\x5c\x73\x21\x09\x2a\x6b\x71\x2b\x37\x03\xeb\x3e\x49\x98\xa8\x13\x30\x63\x2a\xbc\x55\x0d\x86\x35\xa8\x41\x95\x85\xe6\x24\xaf\x24\x12\xc5\x5b\xb4\xec\x85\x3f\x56\xfe\xdf\x98\xe4\x9a\x47\xdc\x4d\x05\xd4\x13\x36\xb7\x89\x7a\x25\xdd\xc6\xaf\x46\xe8\xe9\x5d\x6d\x2b\x36\xe5\xe8\x67\x0d\x84\x42\x6a\x3a\x98\x20\xd9\x69\x93\x58\x41\xaa\x1d\x46\x89\x09\x4a\x0c\x6a\xff\xa6\x93\x4b\xd8\x77\xa7\x56\x08\x24\x9f\x01\xc2\x3e\x28\xfc\x0e\x95\xae\xb1\xfd\xd7\xca\xb0\xc9\xd0\x3f\x6d\xb8\xbc\x54\x9f\x46\xbc\x02\x58\xe9\xb7\x04\x19\x39\x78\x57\xe4\x7e\x62\x85\x28\x06\xa7\xd5\xe9\xf3\x8a\x03\xa5\x60\xa8\x49\xbf\xbf\x3b\x01\xb3\x03\xdd\x06\x1f\xa5\xb6\x4f\x55\xf8\xae\xa7\xbc\x3b\xf4\x85\x2b\xf7\xb7\x31\x57\xcb\x17\x26\xb3\x90\xa4\x86\x12\x28\xaa\xac\xff\x0d\x70\xc1\xe3\x28\x72\x19\xf8\xb8\xd2\x47\x5d\xeb\xbf\x46\x85\x37\x13\x8e\x92\x04\x19\x2a\x5b\x6d\xf0\xe0\xcc\x34\x39\x1d\x5d\xf4\x51\x17\x44\x8f\x18\x78\xa9\x85\x1a\xba\x1a\x80\x98\x39\xdb\x52\x89\x3b\x65\xe7\xb1\xdb\x09\xd8\x26\x57\x30\xc1\x22\x0c\x22\x8c\xaa\xc1\xe6\x53\x46\xe1\xb3\x30\x5f\x06\xd9\xea\x6d\x4c\x47\x71\x8e\xaa\x2f\xba\x26\x04\xe7\x75\x2c\xec\x01\x5b\x22\x15\xb3\x92\x2d\xa1\xda\x2d\x56\xfb\x05\x6b\xa7\x68\x55\x68\xd4\x88\x69\x36\xec\x6d\x07\x59\x6d\x51\xba\xaf\xcc\x65\x82\x4c\x2c\x85\xf8\x24\x58\xd5\x0c\xec\x09\x22\x50\xa1\x65\xbc\x75\xf4\x28\x81\xba\xc1\x36\xd7\xee\xca\x77\x30\x9a\x9b\xe1\x1a\xe2\x59\x8f\xea\x3b\xb6\x06\x80\xd9\x4d\xd5\x1c\xe8\xf9\xe6\x5b\xff\x97\xf8\xd2\xd5\x1d\xac\x26\x53\xdb\x87\xe1\x92\x32\x14\x16\x9a\x6b\xe9\x58\x46\xae\x83\xdf\x40\xdc\x58\x37\xf3\xbf\x4d\xd8\xb0\x16\x0e\x4d\x92\xdb\x60\x9c\x95\x3f\x83\x8f\x40\x83\x9a\xd5\x44\xef\xa6\x3b\xbc\x3b\x8c\xc2\xab\x58\x26\xeb\x16\x1e\xb0\xc7\x5a\x78\xd0\xb4\x3e\x05\x11\xc3\x09\x0f\x28\x2c\xa5\x53\xdd\xda\x63\x3c\x6c\xd4\x0f\xf7\x3a\x44\x9d\x12\xb3\x2f\xc9\xc9\xf2\x31\xd7\xde\x81\xd1\xeb\x41\xce\xb6\x7a\xc3\x1b\x60\xdf\x28\xdb\x23\x81\xd9\x81\x60\x97\xec\xeb\xb4\xad\xfb\x72\x9a\xc6\x44\xea\x13\x14\x2f\x5a\x62\xa2\x29\x24\x8c\x2c\x78\x9b\xcb\xd7\xd8\x0f\xe5\x65\x7e\x54\xff\x70\x12\x97\xdb\x97\xe5\x76\x01\x5a\xf1\xa8\xfa\x70\xb2\x0d\x8b\xb7\x71\x9a\xa4\x25\xba\xc4\x2b\x23\x56\x60\xad\x6c\x79\x6a\xc9\x14\xed\x0e\x54\xb9\x56\x42\x15\xd4\x66\x9e\x83\x91\xe1\x0d\x95\x3d\x68\x36\xf8\x30\x53\xd2\xca\x98\x93\x64\x49\x59\xad\xec\x1c\x6c\x75\x8a\x48\x19\x03\x5d\x31\x94\x9e\x9a\x90\xa6\x16\xea\x4b\xc6\x56\xb6\x7b\x66\x99\x13\x83\xe9\x57\x52\x02\xad\xd4\xeb\x06\x98\x6d\x13\xac\xb8\x6f\x5f\xb2\x95\x52\x7c\x2b\x8c\x76\x85\x5c\x95\x6e\x8a\xe8\xac\x03\xc1\xe8\x09\x12\x14\x75\x8a\xd6\xd7\x4a\xdf\xe4\x78\x91\x99\x31\xda\xda\xca\x04\xd7\x92\xb9\x0c\xa4\x9e\xd1\x1d\xcc\xe5\xee\x4a\xe5\x6a\x0a\x59\x9e\xca\x60\x97\x06\xfe\x94\xcc\x6d\xc3\x40\xe1\x85\xe4\x2e\x41\x2e\x9a\x83\x57\xcb\x0d\xae\x89\x4f\x5f\x82\x28\x4f\x70\x09\xd4\x1e\x66\xad\x50\x66\xd1\x74\x78\x74\xad\x69\x0e\xf1\x78\xf2\x4c\x09\x71\x8c\x03\x79\xbb\x3a\x9a\x55\xc1\x72\x7d\xe4\x39\x14\x22\x8e\x77\xef\xdc\x33\x82\xb8\x7f\xee\xd9\xea\x5d\x85\x58\x3b\x52\xcf\x31\x1b\x7b\x2c\xbd\x44\x14\x5e\xd2\x01\x89\x42\x51\x6d\x9b\x14\x14\x5f\xc0\xf0\x41\x10\xe3\xe9\xae\xef\xb1\x84\x36\xe5\x73\x64\xfc\x8e\xcf\x96\x81\xc5\x45\xe6\x63\x35\xc8\x0a\x2c\x90\x84\x4e\x54\xe4\x37\x79\x21\xb7\x33\x64\x2e\x80\x15\x85\x17\x32\x32\xe9\x6b\x8a\x82\x38\x9b\x24\x2f\x8e\x88\x76\x55\x7e\xba\x9a\x81\x6b\x86\xd2\x25\xc8\xbd\x91\xdb\xfd\x33\xd3\x20\x7d\x3e\xd3\x2c\xf7\x4d\x90\xbf\xce\xe4\x3a\xbc\x36\x23\xc2\x52\xd2\x41\x56\xb6\x3d\x0d\x1e\xc7\xfc\xfa\x68\x3e\x77\xc4\x9f\x19\x4a\x90\xb0\x2a\x8d\x14\x04\x0e\x42\xe3\x33\x97\x06\xda\xe8\x1a\x2f\xb4\x15\xca\xa9\x3a\xdf\x8b\x56\x4e\x87\xc7\xa1\xf2\xab\x5c\xa0\xec\xbc\x4c\x78\x21\xad\xf0\x36\x97\xe4\x33\x0f\x50\x30\x08\x01\x5d\x25\x19\xec\x49\x0e\x99\x0b\xa5\xe9\xd1\xf1\xc3\x93\x7a\x19\xab\x11\xfe\x1a\x22\x09\x1d\xcf\x8e\x1c\xee\x19\x9f\xc5\x20\x79\xd3\xf9\x51\x48\xe3\x57\x4e\xfc\x5b\x8e\x12\x3c\xc9\xeb\x76\x8f\x47\xba\x8f\xca\xee\x37\xbd\x8a\xa1\xe4\x3e\x8e\xc4\x16\xde\x40\xbf\x8e\x33\xbf\x56\x86\x5f\xe5\xec\x7b\xc3\xc6\xca\x82\x04\xab\x38\xbd\x01\x59\xe1\xc2\xfa\xdb\xed\x9f\x04\xa0\x64\x41\x7c\x60\xf8\x58\x37\xad\xac\x83\x1d\x81\xdf\x46\x8c\xb8\x16\x4b\xae\xc7\x80\x9b\xd9\xfd\x49\x33\xc1\xaf\x6d\x5b\x2b\x0e\xdc\x1d\x1e\x1e\xce\xf4\x0f\xae\xbb\xc9\xf8\xff\xe4\x2b\xdf\x17\x48\x57\x95\x04\x7d\x4b\x3b\x6b\x5a\x9b\x5d\xe1\xf0\xaa\xc2\x80\x24\x8f\x5e\xc7\x05\x2c\x9c\x38\xc0\x3d\x0c\xbf\x66\x64\xea\x0b\x9d\xb3\xd4\xaf\x71\xff\xc6\x68\x17\xc0\x1c\x0e\xb0\x03\xff\x24\x7d\xa1\xdc\x83\xaa\xf4\x19\xbf\x28\x43\xe5\x69\x71\xad\x53\xa3\xa7\x68\xdf\x2e\xa9\x38\xbe\xcc\x54\xa8\x86\x4c\x05\xb5\x71\x61\x3b\x82\xb1\x15\xf1\x49\x34\xd6\x73\x20\xb9\x29\x49\x09\x4e\x2b\x48\x51\x6d\xbe\x2a\xb5\xc4\x71\x72\x56\x7b\x5b\x6d\xc2\xda\x0e\x28\xda\x0a\x2a\xdc\xe1\x0b\xf1\x32\x29\xd4\xc1\x5e\x04\x89\xb0\x48\x52\x6c\x82\x4b\xf0\xa9\xd4\x85\x1d\xc3\x26\x09\x8d\xb3\xa0\x6c\x95\x3a\xdb\x46\xc7\x78\x50\xf2\x6b\xd4\xf0\x98\xb4\x8a\x8f\x07\xba\xa0\x89\x05\x3f\x3c\xdc\x54\x51\x78\x53\x76\x6f\x9d\xbc\xc3\x3a\x26\xa5\x70\x55\x6a\xb9\x4e\x3b\x4e\x27\x5b\x67\x4c\xfa\xf5\x81\x1d\xf1\xe9\x68\xa4\x32\x6e\x03\x27\x33\x47\x58\x87\x3f\x59\x42\xd9\x58\x3c\x2a\xf2\x6b\xe7\x91\x1b\x79\x5f\x0a\x1a\x92\xfd\x8b\x0a\xa0\xa7\x3c\x66\xa7\xc0\x6e\x86\xa4\x3a\x85\xcd\x60\x44\xaa\xe9\x5f\xa9\x70\x14\x5b\x63\xcd\x90\x94\x8e\xd2\xa8\x61\xec\xc2\x12\xbb\xa2\xb4\x19\x92\xb2\x42\xaf\x6c\xe6\xa9\x2c\x89\xf9\xb2\xa1\x23\x1b\x18\x0e\xf8\x8b\x47\x8f\xec\x74\x11\xf8\x59\x2a\x27\x42\xfe\x54\x0a\x24\x64\x34\xb1\x43\x4c\xb0\xd8\xb7\xa2\x0d\x54\x14\x78\xf5\x02\x55\xd5\xd1\x2c\xec\xfd\xa7\x02\xd8\x60\x46\x93\x0b\x53\xe1\xa8\x91\xd8\x19\x32\xd3\xe5\x21\x1d\x21\xb3\x4e\xb2\x0f\x47\xcc\xb8\xcd\xfe\x21\xb3\x7d\x22\x60\xc7\x74\xcb\xc5\xc9\xab\xaf\x7a\x83\x60\x18\xc5\xae\x62\xe3\x24\x71\x28\x58\x43\x57\x58\xd8\x51\xaf\x91\x01\xb5\x8e\x78\x9a\x01\xea\x78\x56\x3d\x45\x66\xe5\x22\x10\xb0\x15\xe7\x79\xf5\x8b\xdd\x31\xbb\x5a\x26\x02\x5c\x0d\xc7\xe2\x99\x23\xf1\xf0\x8b\xd5\x43\x72\x03\xaa\x31\xcc\xd8\x1c\x72\xcc\xd3\x5d\xdc\x3c\xdd\x3b\xae\xd7\x1b\xd6\xeb\x8b\xea\x59\xa4\xdd\x19\xd3\xcb\xd3\x8e\xa0\x5e\x8b\x42\x36\x51\x1a\xd5\x26\x0f\xaa\x1a\xe8\x49\xa3\x08\xda\x12\x40\xcd\x42\xaf\x11\xd1\xf3\xdd\xb1\x73\x36\x08\x6a\x11\xa0\xfd\xa2\xe7\xad\x12\xb1\xa9\xf1\x76\x55\x38\x08\xfa\x8c\x0e\x98\xd3\x25\x14\x9c\xb4\xce\x60\x07\xe5\x02\x07\x22\xc7\x04\xf4\xf2\x44\x69\xbf\x9a\xf2\x75\xd1\x26\x98\x71\x1c\x90\x73\xc6\x94\x1a\xd3\xa2\x60\xc4\xb4\x46\x44\xcf\x7b\x4a\xc8\x4c\xe8\x08\x6f\x92\xba\x0c\x22\x24\xb0\xe3\xa8\xc8\x24\xbf\x1a\xbe\x44\x60\x28\xa2\xae\x23\x9c\xd0\x8f\x58\xc5\x56\x5f\xbd\xae\x71\xb3\x5d\xbf\xef\xcd\x51\x89\x53\xc9\x8e\x29\x19\x63\x29\x86\x51\x65\x81\x69\x1b\x8e\xd4\xd2\xa1\x1b\xe5\xc9\x51\x0d\x95\x4e\x2a\x35\xce\x4a\xe6\x5c\x09\x5d\x8b\x75\xe2\x28\xa7\xfc\xde\x04\x3b\x75\xc3\xbb\xe6\xd1\x52\x34\x19\x9d\x39\xe1\xdf\xe5\xed\xa5\x1c\x2d\x18\x90\x75\x5d\x79\x83\xa4\x8c\x56\xf1\xc3\xa2\xda\xbd\x3c\xcb\x2f\x3e\x3a\x6c\x7c\x6a\x09\xca\x54\x79\x13\x5c\x29\x23\xb3\xd4\xcf\xe6\x9b\xf9\x40\x6f\xeb\x94\x23\xc6\xab\x93\x8e\x0a\x2e\x3a\x23\xd6\x28\xe0\x8a\x6d\xaa\xd2\xb3\x6a\x81\x0b\xbc\x5c\xc8\x26\x67\x5f\xec\x5a\x54\x95\xdb\xe3\xc2\xc6\xd0\x0a\x37\x84\x6a\xf6\x46\xa6\x92\x2e\x04\x54\xbf\x9f\xe7\xe8\x4a\x19\x89\x5a\x41\x76\x9f\xea\xab\xf8\x74\xdc\x39\xa1\x8a\x34\x47\x2f\xbf\xe3\xe9\x1e\x3c\xd5\x77\x8e\x09\x51\xff\xd2\xc4\xe3\x55\x45\xf6\x7b\x66\x61\xdf\xb4\x78\x0a\xef\xa3\xaa\x0e\x5d\xf1\x41\x94\x9b\xdf\xca\xe0\xb3\x0e\x67\xf4\xf5\xd7\xf9\x10\x85\x86\xff\x78\xb5\x72\x07\x50\x99\x59\xf7\x57\xb9\x97\x1e\xfb\x70\x13\x1b\x0b\xc5\x8d\xe4\xe2\x44\x68\x9c\xd5\x08\xf8\x3c\xc7\x18\xae\xfe\x05\xfa\x2b\x3b\xb9\x4e\x33\x8d\x36\x2a\xce\x3e\x3c\x6b\xd9\x9e\xfb\xa0\xbb\x76\x9d\x2f\x56\xf0\xe6\xa0\x6f\x88\xfa\x6c\x2a\xf4\x81\x96\x2e\xaa\xfb\xd6\x9a\x7b\x4d\xb6\xd0\xf3\x00\x76\xd4\xd1\xe1\x5a\xf9\x49\xef\xc8\x66\xfa\xad\xbc\x56\xd7\xf6\x54\xbb\x73\x0d\x9e\x09\xd7\x07\xe9\xcd\xd9\x07\xdf\xa9\xaf\x93\x92\xb4\x5a\x30\xb9\x80\xae\x37\xdd\x8b\xaa\x0c\xc1\xb3\x08\x55\x71\xe2\xfc\xe0\x77\xff\xf1\xf7\x3f\xfe\xf6\xdf\x7e\xfc\xd7\xff\xfc\xf1\x9f\x7e\xf8\xfd\xbf\xfc\xc3\xff\xfc\xd7\x7f\xff\xee\xb7\xff\xf8\xe3\xbf\xff\xf0\xfb\x1f\xfe\xf9\x60\x6e\xdc\x67\xde\x5c\xf7\xe2\x84\x4f\x63\x04\x77\x24\x07\x34\x66\x76\x8f\x81\x76\x8d\x53\x45\x01\x26\xb5\x42\xc4\xc6\xaf\x66\x78\x44\xc9\xb8\x04\x53\x61\x7d\xc9\xb1\xb6\xa0\xa3\xe6\xfd\x82\xae\x02\x9b\x1a\x45\xc4\x5d\x74\x3d\x65\x6d\xdd\xcc\xa6\xe0\xe6\xf5\x5d\xa1\xde\x35\xb7\x05\xf9\x9a\xac\xe2\x91\x32\x5f\xcb\x02\x88\xa3\xda\xaa\x53\xb1\x60\x05\x62\x0b\xd8\x02\xd5\xa7\xbf\x95\x59\x42\x5e\xa9\x25\xad\x06\xb7\x58\x27\x60\x4f\xf7\xec\xde\x65\x7b\xef\xb3\xce\x41\x1c\x33\x8a\x9e\xf2\xc0\x66\x6b\xb1\x94\x02\xb6\x63\xbf\xf5\xb0\xe7\x4f\x49\xdc\xd1\x78\xd9\xca\x00\xf0\x6b\x21\x68\xb3\xf4\x38\x0e\xb7\x8d\x09\x1a\x10\x28\xa7\xd0\x61\x3b\x94\x4a\x72\x35\x5f\xc7\x96\x01\x48\x41\x50\xe7\x5c\x16\x7c\x6d\xa3\x6d\x60\x90\xcf\x57\xb3\x2f\x8a\xe4\x8d\x2c\xee\x6b\x52\x8e\xb1\x33\x0e\x77\x64\xa7\xeb\x59\xf2\xf9\x81\x78\x15\x83\x3f\x9e\x2b\x84\xd7\x0c\x84\xb3\x64\xf9\x06\xcd\x30\x0c\x46\xa9\x10\x14\x57\x37\x62\x26\x29\x8a\x08\x40\x82\xc9\xaf\xaa\x72\x34\xd9\x86\x05\x1a\x29\xab\x92\xf2\x20\xe8\xec\x86\xb1\xcc\x73\x71\x30\x57\x23\xd2\xf4\xbb\xa5\xeb\xb0\xa9\xd1\x8a\x5b\x32\xad\x4d\x2e\x7d\x57\xda\xb7\x3f\xef\xdb\x9f\xf8\xed\xcf\xfc\xf6\xa6\x7e\xf9\x06\x93\xa0\x08\x9a\xd9\xdf\x5a\xf2\xf7\xe3\xfd\x0d\x62\xf6\xcb\x98\xb1\x02\xae\xbb\x15\x5f\x5c\xc2\x8e\x20\xca\x56\x66\xf1\x13\xae\xe8\x6c\x5e\xd1\xe9\xf2\xad\x9f\x2f\xe5\xd5\x93\x72\xbd\x86\xdf\x88\xab\x5d\x1d\x2d\xec\xfa\x03\xe5\xd4\x4e\xda\xf7\x96\xed\xbc\xc9\xc4\x5c\x63\x3a\x36\xc1\xf7\xf2\xf1\xd9\xe9\x3d\x6f\x32\xa1\x6e\xd8\x5f\x70\x50\xd4\xfc\x56\x47\x39\xe9\x86\x5a\x3e\xc4\x99\x67\x97\xfc\xdb\x5c\x4b\xa7\xdc\xc0\xf6\x8d\x78\x63\x4f\x59\x76\x9d\x97\x3c\x2d\x17\x86\x01\x10\x07\x14\x61\xa5\x84\xb7\xf9\x32\x0b\x17\x7c\x89\x4c\xeb\x48\xa4\x5f\xbf\x59\xc6\xe9\x3e\x36\x89\x53\xb0\x5b\xf2\xc9\x85\x17\xf9\x39\x4d\xd6\xdb\xc9\x59\x8a\x43\xd0\x79\xe9\x46\xdc\x3a\x6e\x68\xb1\x41\xfd\x6e\x46\x3c\x50\x62\x2d\xd8\xd8\xbb\x63\x68\x8d\x76\xdf\x1d\x53\x41\xde\x79\x52\xa5\x76\x47\xae\x6f\x08\x6c\x4e\xab\x58\x6b\xdd\x73\x67\xcc\x30\x04\x55\xc7\xf0\xa7\x77\x75\x4c\x35\xaf\xb1\x57\xc7\x98\x35\x3e\x12\xf5\x39\xe3\x81\x0d\x33\xed\xbd\xee\x8b\xc1\x85\xea\x39\xa6\x6b\xa2\x52\xad\x36\x56\xa2\xae\x6a\xd1\x75\x94\x63\x8f\x0b\x65\xac\x55\xfe\xa4\x0b\x65\x2c\x38\xa6\x74\x77\xaf\x0b\x4e\x41\x7b\x1c\xf4\x71\x54\xeb\x7e\x98\x3d\xaf\x1e\xb1\xc2\xe3\x4c\xd4\xc6\xe1\xc9\xee\xc3\x80\xf9\xb9\x12\x80\x20\x22\xfa\xa3\xe2\xed\x82\xd1\xae\xf3\x92\x03\x65\xe7\x30\x8e\xff\x8c\xf4\x5e\x77\xa1\xe4\xc0\xdd\x2d\x0f\x46\x5d\xf9\x31\xad\x71\xd4\x8e\x4a\x37\x9a\xf0\x88\x4a\x37\xaa\x6c\x4b\x16\xbf\xc6\x0a\x0e\x15\xbc\xcc\xcd\x7a\xe9\x2b\x3a\x5e\x04\xf1\x0d\x27\x6c\x12\x62\x0c\xf5\x3f\x2e\xa0\x6a\xa0\x12\xc7\xc6\xac\x09\xdd\x96\x8c\xc9\xbe\x3c\x44\x71\xa7\x8e\x03\xd5\x0a\xe0\x3a\xf0\xee\xbb\x8c\x07\x0f\x1e\xeb\xea\x0e\xe8\x6f\x6b\xb0\x1d\x85\x70\x9a\xce\x35\x1e\xe4\xf1\x71\x0a\xf6\xc0\x33\x73\x46\x79\x59\x81\xf5\xf6\x29\xca\xc1\x19\xdd\xbf\x28\xc7\xea\xbd\xe3\x42\x08\x9c\xcd\x1f\xfb\x42\x88\x0a\xbb\xb6\x15\xd1\xab\x80\x5e\x97\x8b\x28\xcc\x37\x95\xfe\xf9\xb4\xdb\x20\xc6\x58\x1f\xf7\xb9\xe5\x41\xd7\x81\x0c\xdf\xf4\xd0\xd2\x12\x66\x76\xaa\x14\xc4\x5c\xf7\xc0\x45\x21\x3b\x0c\x9a\xa9\x55\xed\x51\xdb\x0a\x76\x89\x47\x8f\x5e\xa9\x15\x77\x34\x6b\x3b\x9a\xa5\x1d\x7f\xc2\x57\x36\x90\x01\x74\xdf\x2b\x1b\x7a\xa8\xd2\x29\xfb\xc6\x5d\xd9\xa0\xf5\xc2\x1f\xec\x72\x86\x1e\x94\x47\xa8\x2a\xd1\xaf\xab\xb0\x02\x6f\x84\x1a\x82\x06\x26\x1b\xdc\x54\x47\x00\xa2\xad\x91\xe0\xe5\x9d\x05\x5d\x77\xe6\xb3\x48\xba\xf3\x83\x07\xed\x6f\x3e\x25\x5b\xf1\x4a\xc9\x0f\xa1\x3a\x5c\xf6\xc1\xe9\x19\x46\x27\x87\xdb\x40\x74\x0d\xb0\x46\xa4\x23\xa1\xda\x79\xe5\xc4\x58\xa5\xdc\x95\xe9\x1c\xd6\xca\xdd\x77\x3b\xd9\x3c\xac\x74\x73\xb7\x6a\xee\xcc\x3b\xd6\x34\x73\xe3\x6a\x0a\xfd\x3f\xde\x51\x85\x3f\x56\x89\x4e\xd0\xa3\xac\x71\x72\x5a\xd2\x03\xd3\x34\x75\xf5\x21\xe1\xfa\xd3\x28\xec\xb1\x36\xd6\xae\x74\xe3\x4e\x05\x6d\x06\x22\xc0\x06\x9c\x67\x2d\xc3\xff\x02\xd3\x1e\x30\xc2\x28\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26985, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x33, 0x73, 0x2f, 0x95, 0x83, 0xad, 0xcc, 0x6e, 0xbe, 0xec, 0xa9, 0xb6, 0xe6, 0x1, 0x10, 0xf8, 0x91, 0x11, 0xf0, 0xee, 0xa7, 0x5f, 0xbb, 0xfb, 0xd, 0x39, 0xe0, 0xe, 0x89, 0xfb, 0x7, 0xb3}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27176, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xdc, 0x58, 0x3e, 0x7f, 0x37, 0x4f, 0xc1, 0x2f, 0x8e, 0xd, 0xc6, 0x90, 0x11, 0xf3, 0x84, 0xf4, 0x82, 0xc, 0x36, 0x2a, 0xc4, 0x50, 0x6b, 0xd4, 0x9e, 0x8f, 0xbb, 0xfa, 0xc9, 0x1d, 0x1d, 0x3f}}
 	return a, nil
 }
 
-- 
2.43.0


From 9a2ca375f845533ae02b7a019f424a55a6b43f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 21/21] fix: put the value of an optional parameter in the
 path, not its address

The generated client printed the pointer.
---
 gengokit/httptransport/httptransport.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 430c3aa..8488691 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -256,10 +256,14 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 //     }
 func (b *Binding) PathSections() []string {
 	isEnum := make(map[string]struct{})
+	isOptional := make(map[string]struct{})
 	for _, v := range b.Fields {
 		if v.IsEnum {
 			isEnum[v.CamelName] = struct{}{}
 		}
+		if v.StarExpr {
+			isOptional[v.CamelName] = struct{}{}
+		}
 	}
 
 	rv := []string{}
@@ -267,12 +271,18 @@ func (b *Binding) PathSections() []string {
 	for _, part := range parts {
 		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
 			name := RemoveBraces(part)
+			value := pkg.GoCamelCase(name)
+			// The field of an optional parameter is a pointer; its getter gives
+			// what it points to.
+			if _, ok := isOptional[value]; ok {
+				value = "Get" + value + "()"
+			}
 			if _, ok := isEnum[pkg.GoCamelCase(name)]; ok {
-				convert := fmt.Sprintf("fmt.Sprintf(\"%%d\", req.%v)", pkg.GoCamelCase(name))
+				convert := fmt.Sprintf("fmt.Sprintf(\"%%d\", req.%v)", value)
 				rv = append(rv, convert)
 				continue
 			}
-			convert := fmt.Sprintf("fmt.Sprint(req.%v)", pkg.GoCamelCase(name))
+			convert := fmt.Sprintf("fmt.Sprint(req.%v)", value)
 			rv = append(rv, convert)
 		} else {
 			// Add quotes around things which'll be embeded as string literals,
-- 
2.43.0

