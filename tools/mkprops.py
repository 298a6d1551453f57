#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=quant),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
NOTEST="the tests of gengokit/service and gengokit/generator do not compile in this tree, so no stable test reaches regeneration at all"

p("C01","Regeneration keeps the user's own declarations",
 "When a service is regenerated over an existing service/service.go, the new file still contains every import, type, const and var declaration, every unexported function and method, the NewService constructor, and every method on the pointer to the service type (lower-cased service name followed by Service) that is named like a current RPC. They keep their relative order. Nothing else about a declaration (its size, position, comments, body or parameters) decides whether it stays.",
 ["inputs","histories"],"for every previous service.go that parses, every service definition and every sequence of regenerations",
 "A test fixes a handful of previous files; the loss of a user's declaration depends on its kind and name among unboundedly many. "+NOTEST+".",
 ["gengokit/service/services.go","gengokit/generator/gen.go"],
 [("pruning of the parsed declarations","gengokit/service/services.go Render/pruneDecls/isValidFunc"),("previous file handed to the handler renderer","gengokit/generator/gen.go generateResponseFile")],
 ["declarations of the rendered service/service.go"])
p("C02","Regeneration never rewrites user code",
 "In a declaration that regeneration keeps, the only thing it may change is the type name after the package qualifier in the second parameter and the first result of an RPC handler. Bodies, comments, other parameters, names and tags come out as they went in, and comments of the file are kept.",
 ["inputs","histories"],"for every previous service.go that parses and every service definition",
 "A silent edit of user code shows only for particular syntax (a comment, a third parameter, a generic receiver); "+NOTEST+".",
 ["gengokit/service/services.go"],
 [("parse with comments, mutate selected identifiers, print the whole tree","gengokit/service/services.go NewService/Render/updateParams/updateResults/buffer")],
 ["bytes of the rendered service/service.go"])
p("C03","Kept handlers get the RPC's current request and response types",
 "Whenever a kept handler has exactly two parameters, its second parameter type X.T or *X.T becomes X.<request type of the RPC of that name>; whenever it has exactly two results, its first result type becomes X.<response type of the RPC of that name>. Each is decided on its own and takes the types of the RPC the handler is named after.",
 ["inputs","histories"],"for every previous handler signature and every change of the RPC's types",
 "Depends on pairs (old signature, new definition); "+NOTEST+".",
 ["gengokit/service/services.go"],
 [("updateParams/updateResults/updatePBFieldType","gengokit/service/services.go")],
 ["signatures in the rendered service/service.go"])
p("C04","Exactly one handler per RPC after regeneration",
 "After regeneration over an existing service.go, every RPC of the definition has exactly one handler: the kept one if there was one on the service type, else a newly generated stub; the stubs follow the kept code and no stub is generated for a kept handler. Exported functions and methods that are not such handlers (RPC removed, or other receiver) are gone, and a first generation has one stub for every RPC.",
 ["inputs","histories"],"for every previous file and every added/removed/renamed set of RPCs",
 "The bookkeeping between kept and missing handlers is quantified over all pairs of previous file and definition; "+NOTEST+".",
 ["gengokit/service/services.go","gengokit/template/NAME-service/service/service.go.tmpl","gengokit/template/NAME-service/service/service_methods.go.tmpl"],
 [("method map built from the definition, entries removed for kept handlers, rest rendered","gengokit/service/services.go newMethodMap/pruneDecls/Render")],
 ["methods of the rendered service/service.go"],
 [("method map","RPCs which have no handler yet","gengokit/service/services.go")])
p("C05","Generated handlers are recognised by the next run",
 "The constructor and the handlers that a first generation or an earlier regeneration wrote are recognised as the constructor and as handlers of their RPCs by the next run, for every service name and RPC name: the receiver and names the templates write are the ones the recogniser accepts.",
 ["histories","inputs"],"for every service and method name and every number of successive runs",
 "Two artefacts (templates and recogniser) must agree for all names; no stable test runs the generator twice, or once.",
 ["gengokit/service/services.go","gengokit/template/template.go"],
 [("receiver/constructor in the service templates","gengokit/template/template.go service assets"),("isValidFunc / ignored constructor name","gengokit/service/services.go")],
 ["rendered service/service.go"])
p("C06","User-owned files pass through, generated-only files are refreshed",
 "When the previous generation supplies cmd/<svc>/main.go, cmd/<svc>-client/main.go, server/endpoints.go, server/interrupt.go, server/wrapper.go or service/wrapper.go, its new content is the previous content (up to gofmt); when it is missing it is rendered from its template. server/server.go and the .pb.baron.go file are always rendered afresh and never from a previous version; the client command is produced exactly when client generation was asked for.",
 ["histories","inputs","configurations"],"for every combination of previously existing files and options",
 "2^7 combinations of existing files times options times content; "+NOTEST+".",
 ["gengokit/generator/gen.go","gengokit/service"],
 [("dispatch on the template path","gengokit/generator/gen.go generateResponseFile"),("pass-through renderers","gengokit/service/*.go Render")],
 ["map returned by GenerateGokit"])
p("C07","Every user-owned file on disk reaches regeneration",
 "For every output file that generation takes from a previous version, the file on disk at that path under the service directory is read and offered under exactly the key the generator looks up, whatever the service is called. A file or directory that exists but cannot be read makes the run fail; it is never treated as absent (and so overwritten).",
 ["histories","inputs","fault_sequences"],"for every service name, directory layout and read failure",
 "Key agreement between walker and generator must hold for all names and paths, and read failures do not occur in tests; main has no tests.",
 ["cmd/baron/main.go","gengokit/generator/gen.go"],
 [("directory walk collecting previous files","cmd/baron/main.go readPreviousGeneration"),("lookup of previous files","gengokit/generator/gen.go GenerateGokit")],
 ["Config.PreviousFiles"])
p("C08","A failed generation leaves the service directory as it was",
 "All files of the service are rendered before the first of them is written, and rendering itself writes, removes or creates nothing: if reading the definition, parsing the previous service.go, or rendering any file fails, no file below the service directory has been changed.",
 ["fault_sequences","inputs"],"for every failing step and every input",
 "Quantifies over which step fails; tests have no failing renders and do not run main.",
 ["cmd/baron/main.go","gengokit/generator/gen.go"],
 [("generateGoKitCode completes before the write loop","cmd/baron/main.go main"),("renderers only touch memory","gengokit/...")],
 ["file system"])
p("C09","Writes are confined to the generator's own outputs",
 "The only files the program creates or overwrites itself are the generator's files joined to the service directory, the <proto name>.pb.baron.go file next to the definitions, the --start file, and files inside temporary directories it made itself; the only directories it creates are the service directory, the parents of those files, the --start directory and temporary directories. protoc is told to write only to the directory of the definitions or to such a temporary directory.",
 ["inputs","configurations"],"for every definition, option and path",
 "A stray write target depends on paths and options no test enumerates; main and execprotoc have no tests.",
 ["cmd/baron/main.go","gengokit/generator/gen.go","internal/start/start.go","internal/execprotoc/execprotoc.go","internal/parsesvcname/parsesvcname.go","svcdef/newfromstring.go"],
 [("WriteGenFile call sites","cmd/baron/main.go, gengokit/generator/gen.go"),("protoc output flags","internal/execprotoc/execprotoc.go")],
 ["file system"])
p("C10","Only temporary and known stale directories are removed",
 "The program removes nothing but temporary directories it created itself and, after a successful generation, the three stale locations svc/server/cli, svc/client/cli and cmd/<service>-server below the service directory.",
 ["inputs","configurations"],"for every run",
 "Removal targets are built from user input (service name and directory); nothing tests them.",
 ["cmd/baron/main.go","internal/parsesvcname/parsesvcname.go","svcdef/newfromstring.go"],
 [("cleanupOldFiles","cmd/baron/main.go"),("deferred RemoveAll of temporary directories","internal/parsesvcname, svcdef, internal/execprotoc")],
 ["file system"])
p("C11","--start never overwrites an existing file",
 "The --start command creates its proto file only when a check of that same path did not find it; if the path exists it is left untouched and the exit code is non-zero. The exit code is zero only if the file was created and the complete rendered content was written without an error.",
 ["inputs","fault_sequences"],"for every package name, output directory and I/O outcome",
 "start.Do itself is untested (tests cover name derivation only); the property is about all paths through it.",
 ["internal/start/start.go","cmd/baron/main.go"],
 [("Stat before Create on the same name","internal/start/start.go Do")],
 ["file system, exit code"])
p("C12","No failure is swallowed",
 "When reading input, running protoc, parsing, rendering, creating directories or writing output fails, the failing call's error makes the enclosing operation fail, up to a non-zero exit of the program. The only exceptions are the documented ones: no valid service (warning, exit 0), definitions without HTTP annotations or without a service, streaming methods (skipped with a warning), gofmt failing on generated code (written unformatted), and failure to remove stale directories or temporary files.",
 ["fault_sequences","inputs"],"for every fault at every call that can report an error",
 "Tests hardly inject a fault; the property ranges over all failing calls on all paths.",
 ["cmd/baron/main.go","gengokit","svcdef","internal"],
 [("error returns wrapped and propagated","everywhere"),("log.Fatal in main","cmd/baron/main.go")],
 ["exit code, returned error"])
p("C13","Temporary directories are removed on every exit",
 "Every temporary directory the program creates is removed when the operation that created it ends, on success and on every failure path.",
 ["fault_sequences"],"for every exit path after the directory was created",
 "Needs every failing path between creation and return; tests only take the successful one.",
 ["internal/parsesvcname/parsesvcname.go","svcdef/newfromstring.go","internal/execprotoc/execprotoc.go"],
 [("defer os.RemoveAll right after creation","all TempDir sites")],
 ["file system"])
p("C14","Generation is deterministic",
 "The files generated are a function of the definitions, options and previous files: they do not depend on map iteration order, on time, randomness, goroutine scheduling or memory addresses.",
 ["schedules","inputs"],"for every input and every possible iteration order of every map the generator walks",
 "Map order is random per run; a test would need all orders, and most inputs have one entry in the tests.",
 ["gengokit","svcdef","cmd/baron/main.go","internal"],
 [("iteration in definition order or over sorted keys","gengokit/service/services.go, svcdef")],
 ["generated files"])
p("C15","Calls do not influence each other",
 "Analysing or generating one definition has no effect on a later or concurrent one in the same process: no package-level state is written during an operation, so each result depends only on its own arguments.",
 ["histories","schedules"],"for every sequence or interleaving of operations in one process",
 "Each test looks at one call; the program itself analyses the definitions twice per run.",
 ["svcdef","svcdef/svcparse","gengokit"],
 [("state kept in locals and receivers","svcdef/svcdef.go, svcdef/svcparse/scanner.go")],
 ["results of svcdef.New, svcparse, gengokit"])
p("C16","The scanner loses and invents no input",
 "The units the scanner hands out, concatenated, are exactly the input text from its start up to the end of the last complete unit, for every input: every rune read is put into the current unit or pushed back. Strings with escapes, // comments and /* */ comments (however many asterisks close them) are single units ending where protobuf ends them; words (letters, digits and underscores) and white space are single units, and every other rune is a unit of its own.",
 ["inputs"],"for every text",
 "Tests have a dozen texts; the loss shows only for particular rune sequences.",
 ["svcdef/svcparse/scanner.go"],
 [("BuildScanUnit","svcdef/svcparse/scanner.go"),("ReadRune/UnreadRune","svcdef/svcparse/scanner.go")],
 ["SvcScanner units"])
p("C17","The definition parser never panics or hangs",
 "For every input text, scanning, lexing and parsing HTTP annotations ends, with a result or with an error, and never panics: end of input ends every loop, and every index is within bounds.",
 ["inputs"],"for every text, including truncated definitions",
 "Truncated and malformed inputs are unbounded; tests parse well-formed ones.",
 ["svcdef/svcparse"],
 [("EOF handling in the token loops","svcdef/svcparse/parser.go, lexer.go, scanner.go")],
 ["ParseService and the exported lexer/scanner API"])
p("C18","Only a top-level service keyword starts a service definition",
 "The scanner marks text as a service definition only from the word service standing outside all braces, strings and comments and followed by a separator; fields, messages, packages or comments that contain the word never start or end one. The definition ends with the brace that matches its opening brace. The tokens the lexer gives are exactly the text of the definitions: put together they hold all of it, in order and unchanged, and nothing from outside; for texts in which every closing brace has an opening one.",
 ["inputs"],"for every text",
 "Depends on where the word occurs in arbitrary surrounding definitions.",
 ["svcdef/svcparse/scanner.go","svcdef/svcparse/lexer.go"],
 [("service keyword and brace tracking","svcdef/svcparse/scanner.go BuildScanUnit/FastForward")],
 ["SvcScanner state"])
p("C19","Every RPC, HTTP binding and field of the definition is carried through",
 "Every supported method of the service interface, every HTTP binding declared for it and every exported field of its request message reaches the data the code is generated from, once, each list in the order of the list it is made from, with its own name, verb, path, wire name and type; a binding of an unknown method is an error. Each binding gets its own label, made of method name and index.",
 ["inputs","programs"],"for every service definition",
 "Tests check single fields of small definitions; dropping depends on position, kind or name.",
 ["svcdef/svcdef.go","svcdef/consolidate_http.go","svcdef/svcparse/parser.go","gengokit/httptransport/httptransport.go"],
 [("collection loops","svcdef New/NewService/NewMessage/assembleHTTPParams, httptransport NewHelper/NewMethod/NewBinding")],
 ["svcdef.Svcdef, httptransport.Helper"])
p("C20","Every request field has one location: path, else body, else query",
 "For each HTTP binding each field of the request has exactly one location: path if its name is (the first component of) a variable of the path template, else body if the body selector is * or names it, else query. The verb and path of a binding are those of its custom pattern if it has one, else of its get/put/post/delete/patch field.",
 ["inputs","programs"],"for every binding and field",
 "All combinations of path variables, body selectors and field names; tests have a few.",
 ["svcdef/consolidate_http.go"],
 [("paramLocation/getPathParams/getVerb","svcdef/consolidate_http.go")],
 ["HTTPBinding.Params"])
p("C21","Generated decoders convert each parameter to its field's type",
 "For every field type a request can have in path or query (each scalar, plain or optional or repeated, and enums), the generated server decoder is well-typed Go that parses the text with the conversion and bit width of that type, rejects text that does not parse, and assigns the result to the field it came for.",
 ["programs","inputs"],"for every field type, label and location",
 "The combinations are only visible in generated code, which no stable test compiles.",
 ["gengokit/httptransport/httptransport.go"],
 [("createDecodeConvertFunc/createDecodeTypeConversion/GenQueryUnmarshaler","gengokit/httptransport/httptransport.go")],
 ["generated DecodeHTTP functions"])
p("C22","The templates compiled in are the template sources",
 "Every template the program carries is the template source of the same path in the repository (what it renders is the same up to comments and blank lines), none is missing and none is extra, and every template path that generation refers to exists; so what is reviewed in the template directory is what is generated.",
 ["programs"],"for every template",
 "No test compares them; an edit to one side only still compiles and passes.",
 ["gengokit/template/template.go","gengokit/template/NAME-service","gengokit/service/templates.go"],
 [("go-bindata tables","gengokit/template/template.go")],
 ["template.Asset"])
p("C23","Generated code is complete for every option",
 "For every transport selection, with and without HTTP bindings, the generated files parse and type-check together: each identifier they use is declared or imported, and each import is used.",
 ["configurations","programs"],"for every transport option, and services with and without HTTP bindings",
 "No stable test compiles generated code under any option, let alone all.",
 ["gengokit/template/template.go"],
 [("transport guards in the templates","gengokit/template/NAME-service")],
 ["generated packages"])
p("C24","Each RPC is wired to itself on every transport",
 "In the generated server and client of every transport, the endpoint, decoder, encoder, request and response types and the handler method used for an RPC are those of that same RPC, and every RPC (for HTTP: every binding) is wired on each selected transport. Endpoint middleware wraps each RPC's endpoint under its own name, and what is served are the endpoints WrapEndpoints makes of the endpoints of the service that WrapService makes.",
 ["programs","configurations"],"for every service and transport option",
 "Cross-wiring shows only in generated code with at least two RPCs, which nothing compiles or runs.",
 ["gengokit/template/template.go"],
 [("per-method template sections","gengokit/template/NAME-service/baron, server")],
 ["generated .pb.baron.go and server.go"])
p("C25","Generated client and server agree on the wire names",
 "For every RPC the generated client addresses exactly what the generated server listens on: the same NATS subject, the same HTTP verb and path template, the same query and path parameter names for the same fields; and each request field the server reads from the query or path is sent there by the client, an enum as its number.",
 ["programs","configurations"],"for every RPC, binding and field",
 "Two generated programs must agree for all definitions; nothing runs them.",
 ["gengokit/template/template.go","gengokit/httptransport/httptransport.go"],
 [("client and server sections of the baron template","gengokit/template/NAME-service/baron"),("PathSections","gengokit/httptransport/httptransport.go")],
 ["generated .pb.baron.go"])
p("C26","Every definition file given is compiled and analysed",
 "All definition files given on the command line, and no others, are passed to protoc and to the analysis, together with the Go files generated for each of them; files from different directories are rejected before anything is generated.",
 ["inputs","configurations"],"for every list of definition files",
 "Only visible with several files on the command line; main has no tests.",
 ["cmd/baron/main.go","internal/execprotoc/execprotoc.go","internal/parsesvcname/parsesvcname.go"],
 [("DefPaths handling","cmd/baron/main.go cleanProtofilePath/parseInput/parseServiceDefinition"),("protoc arguments","internal/execprotoc/execprotoc.go")],
 ["protoc arguments, svcdef.New arguments"])
p("C27","HTTP client and server round-trip request values",
 "A request sent with the generated HTTP client arrives at the endpoint of the generated HTTP server equal to what was sent, for every field value.",
 ["inputs"],"for every request value","Quantifies over runtime values of generated programs; nothing runs them.",
 ["gengokit/template/template.go","gengokit/httptransport/httptransport.go"],[("encoders and decoders","generated code")],["generated code at run time"])
p("C28","Names derived by baron equal protoc-gen-go's",
 "For every protobuf identifier the Go name baron derives is the one protoc-gen-go generates.",
 ["inputs"],"for every identifier","Infinite domain, and the other side is an external program.",
 ["pkg/strs.go"],[("GoCamelCase","pkg/strs.go")],["generated code"])
p("C29","A crash while writing never loses the user's service.go",
 "If the process or machine dies at any moment of a regeneration, service/service.go on disk is the complete old or the complete new file.",
 ["crash_points"],"for every crash point","No test crashes a run.",
 ["gengokit/generator/gen.go"],[("WriteGenFile","gengokit/generator/gen.go")],["file system after a crash"])
p("C30","A second run without changes changes no byte",
 "Running the generator again with unchanged definitions and files leaves every generated file byte-identical.",
 ["histories"],"for every definition and set of files","Idempotence of the printer and gofmt over all user files.",
 ["gengokit/generator/gen.go","gengokit/service"],[("printing and formatting","gengokit")],["generated files"])
p("C31","What is generated is what is delivered",
 "A run that ends with exit code 0 after generating has written every file that generation returned to its place below the service directory, and the .pb.baron.go file, each with exactly the content that was generated for it. Generation was given the definition that was analysed, the transport and client options of the command line, and the import paths of the directory of the definitions and of the service directory.",
 ["inputs","configurations"],"for every definition, option and set of generated files","A test sees one set of files; a skipped, mixed up or truncated file depends on names, contents and options.",
 ["cmd/baron/main.go","gengokit/generator/gen.go"],[("configuration built, files written","cmd/baron/main.go main/generateGoKitCode/generateBaronCode"),("writing one file","gengokit/generator/gen.go WriteGenFile/GenerateBaronFile")],["files on disk after the run"])
p("C32","A token is what it holds",
 "For every text the lexer gives each unit of a service definition as one token, typed by what it holds: white space WHITESPACE, a word IDENT, a string STRING_LITERAL, the parentheses and braces their own types, a comment COMMENT, every other rune SYMBOL. Only comments that follow each other, directly or with white space without a newline between them, are put together into one token. Making the tokens neither panics nor goes on for ever.",
 ["inputs"],"for every text","Tests have a dozen texts; what is mistyped or merged depends on the sequence of units.",
 ["svcdef/svcparse/lexer.go","svcdef/svcparse/scanner.go"],[("typing and merging","svcdef/svcparse/lexer.go NewTokenGroup"),("going back","svcdef/svcparse/scanner.go UnreadUnit/UnReadToPosition")],["SvcLexer tokens"])
p("C33","The service read is the service written",
 "For every service definition of rpcs with or without an HTTP option, whose bindings are made of fields and custom blocks, followed by additional bindings, the parser returns a service of that name with every rpc that has an HTTP option, in their order: each with its own name, request and response type (the last part of a dotted name), its main binding and all its additional bindings, additional ones in their order; each binding with all fields of its own block in their order, and those of its custom block apart from them; each field with the name in the definition and the unquoted value of its own string literal, whatever that is. White space and comments between the parts change nothing of this (comments inside signatures and fields may be rejected). A definition that is cut off is an error. On these inputs the parser neither panics nor goes on for ever.",
 ["inputs"],"for every service definition, of any length, and every start of one","Tests have a dozen definitions; what is lost, mixed up or rejected depends on numbers and order of fields, bindings and methods, on names and values, and on where comments stand.",
 ["svcdef/svcparse/parser.go","svcdef/svcparse/lexer.go"],[("service and methods","svcdef/svcparse/parser.go ParseService/ParseMethod"),("bindings and fields","svcdef/svcparse/parser.go ParseHttpBindings/ParseBindingFields"),("going back","svcdef/svcparse/lexer.go UnGetToPosition/UnGetToken")],["svcparse.Service"])
p("C34","Generated code reports its failures",
 "In the generated packages, whenever an operation a function depends on fails (reading or parsing a request or an answer, encoding it, connecting, subscribing, calling the service), a function that returns an error returns one, and the client command ends with a failure. server.Run waits as long as its transports work and ends as soon as one of them fails to connect, to listen, to subscribe or to serve. A failed request is answered over HTTP with a status of its own (the error's, else 500), and the HTTP client takes every answer with a status other than 200 for an error.",
 ["inputs","programs","configurations"],"for every service and transport option, and every operation that can fail, at any time",
 "No test runs generated code, and failures of networks, peers and encoders are hard to bring about.",
 ["gengokit/template/template.go"],
 [("transports started by server.Run","gengokit/template/NAME-service/server/server.go.tmpl"),("decoders, encoders, clients","gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl"),("client command","gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl")],
 ["generated packages"])
p("C35","The generated programs are configured by flags and environment",
 "The generated server listens for gRPC, HTTP and debugging, and connects to NATS, at the address that the transport's own flag (grpc.addr, http.addr, debug.addr, nats.addr) gives when the flag is given; otherwise at what its environment variable says when it is set (GRPC_ADDR, HTTP_ADDR, else PORT as :port, DEBUG_ADDR, NATS_ADDR); otherwise at the flag's default. A transport is started exactly when that address is not empty, whatever the other transports' addresses are; the debug server exactly when the flag debug, else the variable DEBUG (true in any case), says so. The generated client dials each transport at the address its own flag gives, or the flag's default.",
 ["inputs","configurations","programs"],"for every combination of flags and environment variables, service and transport option",
 "No test runs the generated commands; which setting wins depends on which flags and variables are given together.",
 ["gengokit/template/template.go"],
 [("flags and environment of the server","gengokit/template/NAME-service/cmd/NAME/main.go.tmpl"),("transports started by server.Run","gengokit/template/NAME-service/server/server.go.tmpl"),("flags of the client","gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl")],
 ["addresses the generated commands listen at and dial"])
p("C36","Request headers and metadata reach the service",
 "In the generated packages, the HTTP handler of every binding puts, for every header of a request, the header's value into the context that the service gets, under the header's name as received and under its lower-case form, and on top of those, whatever the headers are, the URL's path under request-url and HTTPJSON under transport. The gRPC server of every RPC puts, for every entry of a request's metadata, its first value under its key and under the key's canonical HTTP form. What the context held before is kept.",
 ["inputs","programs"],"for every service, and every set of headers or metadata",
 "No test runs generated code; which values get lost depends on the number, order and names of headers.",
 ["gengokit/template/template.go"],
 [("headers to context","gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl HTTPHeadersToContext"),("metadata to context","gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl GRPCMetadataToContext"),("servers made","gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl MakeHTTPHandler/MakeGRPCServer")],
 ["the context of the service's methods"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
