VF="guarded value-flow analysis over SSA (symbolic store, BDD path conditions), interprocedural"
ASSUME=" Structure the analysis does not recognise is reported as undecided in the evidence and raises no alarm; on the committed tree nothing is undecided."
T={
"C01":(VF,"Decided for all previous files and definitions relative to go/parser and go/printer behaving as documented."+ASSUME),
"C02":(VF+" with an effect analysis of all writes into the parsed tree","Every write into the parsed file reachable from generation is listed and judged; printing is trusted."+ASSUME),
"C03":(VF,"Conditions and values of the stores to signature types are compared with the specification for all inputs."+ASSUME),
"C04":(VF,"Set equality of kept handlers, handled RPCs and stubs is decided for all inputs."+ASSUME),
"C05":("schematic expansion of the service.go templates for generic services, then "+VF+" of the recogniser, evaluated on the declarations the templates write","For generic service and RPC names (symbols with inner capitals, so that the functions applied to names differ on them): each declaration that either template writes is put in place of the declaration in the recogniser's conditions; the result must be kept, and handlers counted. GoName is assumed to leave Go names alone; names that collide with the constructor's are C01's."+ASSUME),
"C06":(VF,"For each output file the content and the condition under which it is produced are compared with the specification, for all previous files and definitions; go/format is trusted."+ASSUME),
"C07":(VF+", with a model of the file system operations","What is read, opened, rendered and left alone on a second generation is decided for every directory layout and previous file; the operating system is trusted to do what it reports."+ASSUME),
"C08":(VF+" with an order-of-effects rule","For every operation that reads, parses or renders and every operation that changes files below the service directory, the order and the path conditions are decided for all inputs; that a write itself may fail halfway is out of its scope."+ASSUME),
"C09":(VF+" of paths","Every alternative of every path given to an operation that creates or changes files is classified, for all options and names; what protoc does beyond its options is trusted."+ASSUME),
"C10":(VF+" of paths, with an order-of-effects rule","Every alternative of every path that is removed is classified, for all inputs."+ASSUME),
"C11":(VF,"Decided for all names and directories; another process creating the file in between is excluded."+ASSUME),
"C13":(VF+" with a resource typestate rule","Every way each function with a temporary directory can end is covered, for all outcomes of what it calls; being killed is out of scope."+ASSUME),
"C16":("finite abstract interpretation of the scanner over SSA, with protobuf's lexical rules as product automaton","Decided for every text, of any length: all abstract states of the scanner are enumerated to a fixpoint; runes are told apart as far as code and rule do."+ASSUME),
"C18":("finite abstract interpretation of scanner and lexer over SSA, with protobuf's lexical rules and the places of definitions as product automata","Decided for every text, of any length: the marks of each unit are compared with the place the lexical rules give it, and the text of each token with the definitions; texts with a closing brace too many are not judged from there on."+ASSUME),
"C32":("finite abstract interpretation of the lexer over SSA, over every list of units the scanner can make, with the places of definitions as product automaton","Decided for every list of units, of any length; units are told apart by first rune, sort, number of newlines (0, 1, more) and length (1, more)."+ASSUME),
"C34":("schematic expansion of the templates for generic services, then "+VF+" of every generated function that can fail, with the goroutines server.Run starts","Each operation with an error result in each generated function is an obligation, for all services the templates are expanded for. That a failing operation reports its error is trusted; whether a server that is told to end has answered all requests is left out."+ASSUME),
"C35":("schematic expansion of the templates for generic services, then "+VF+" of the generated commands with server.Run, over a model of the flag package","Decided for every combination of flags given and variables set: the value that reaches each operation that listens or dials is compared with the setting that decides it. That the flag package behaves as modelled, and what the operations do with an address, are trusted."+ASSUME),
"C36":("schematic expansion of the templates for generic services, then "+VF+" of the functions the generated HTTP handler and gRPC server give to ServerBefore, with a loop rule for what is put into the context","Decided for every set of headers or metadata: in an arbitrary iteration of the loop the value is put under both names, the loop goes through all, and the fixed entries are put on top. That go-kit's servers apply ServerBefore to each request, and that other options given by the caller do not, is trusted."+ASSUME),
"C33":("finite abstract interpretation of the parser over SSA, over every list of tokens that is a service definition or the start of one, with the grammar of definitions as product automaton","Decided for every definition of the grammar, with any number of methods, bindings and fields: tokens are told apart by type, by the words and values the code compares with and by their place in the grammar; each entry by how many of its kind came after it (0, 1, 2, more). Definitions outside the grammar and comments' texts are not judged."+ASSUME),
"C17":("finite abstract interpretation of scanner, lexer and parser over SSA, over every text, every list of units and every list of tokens; recursion by folding equal call sites on the stack","Decided for every text, of any length: every index, nil pointer and explicit panic of every abstract state, and cycles of states without reading on. What the standard library does with what it is given and the size of the stack are trusted."+ASSUME),
"C31":(VF,"For every file of the map that generation returns, being written whole to its place is implied by exit status 0, for all inputs; the options handed to generation are compared with the command line's."+ASSUME),
"C26":(VF+" of lists and maps filled in loops","For every number and order of arguments: the list given to protoc and the maps given to each analysis are shown to have an entry for every argument, by the loops that fill them."+ASSUME),
"C22":("constant evaluation of the compiled-in template table (byte strings, gunzip) and comparison of the parsed templates with the template sources; symbolic evaluation of the lookup functions","Exhaustive over the templates: every entry of the table and every source file is compared."+ASSUME),
"C14":("order-dependence analysis of loops without fixed order (natural loops over SSA, effect classification, followed through lists, results and callees) and taint of clock/random/address sources","Every loop over a map, over a list filled by one, and over what goroutines send is judged, and every call of a time, random or address source. Assumes sort orders are total and distinct keys stay distinct where entries are keyed by what is computed from them."+ASSUME),
"C15":("inclusion-based (Andersen-style) points-to analysis over SSA, separately for initialisation and operations, with a mutation rule","Every instruction of every function an operation can reach is judged; functions of other packages change only what their documentation says (list in globals.go)."+ASSUME),
"C19":(VF,"For every definition: the list of enums, messages, methods, bindings, parameters and fields each stage builds is compared with the list it is built from (every element of the source that must be kept is appended exactly once, in order, with the attributes required), and each name, type, verb, path, label and wire name stored is compared with its source, on every path. The value-flow walk is path-sensitive in conditions; loops are summarised, not unrolled. go/parser and reflect are trusted."+ASSUME),
"C20":(VF,"For every field, binding and definition: the location, verb and path stored are compared, alternative by alternative with the conditions under which each is stored, with the specification; loops over the pattern and the path variables are summarised. Go's regexp and strings are trusted."+ASSUME),
"C12":(VF+" of error results","For every operation which may fail and is reached by a successful run, the failing outcome is shown to exclude exit status 0 (or a nil error), for all inputs; exceptions are listed in errors.go and DESIGN.md."+ASSUME),
"C21":("schematic expansion of the compiled-in templates for generic definitions, then "+VF+" over the SSA form of the generated HTTP decoders","For every kind x location and every subset of path, query and body fields: the value stored in each field, where it comes from, how it is parsed, and that each failing parse ends in an error are compared with the specification on every path of the generated decoder. The templates only iterate lists, so two or three generic elements stand for any number."+ASSUME),
"C23":("schematic expansion of the compiled-in templates for generic definitions (all transports, bindings and kinds), then the Go parser and type checker","Every construct of every template is expanded under every combination of transports, bindings and field kinds, and the packages that result are parsed and type-checked together; a rejected construct is the violation. Names are generic symbols; names that collide with one another or with Go's predeclared names are out of scope."+ASSUME),
"C24":("schematic expansion of the compiled-in templates for generic definitions (all transports), then "+VF+" over the SSA form of the generated server and clients","Each route, gRPC method and NATS subject the generated server sets up, and each generated client method, is followed from the wire to the service and back: which RPC's decoder, endpoint, encoder, request and response it uses, on every path. The go-kit, mux, grpc and nats calls are modelled by their documented behaviour (stubs.txt). The templates only iterate lists, so two or three generic elements stand for any number."+ASSUME),
"C25":("schematic expansion of the compiled-in templates for generic definitions (all transports and kinds), then "+VF+" over the SSA form of the generated clients, compared with the server","For each RPC the address the generated client sends to (subject, method name, verb, path elements, query parameter names and the fields they carry) is compared with what the generated server registers and reads. Values' encodings beyond enums are out of scope. One known finding (gRPC service name) is listed."+ASSUME),
}
NA={
"C27":"The claim quantifies over request values travelling through generated programs, JSON and URL encoding at run time; no sound static argument over baron's source reaches it. C21, C24 and C25 decide the static part (conversions, wiring and names agree).",
"C28":"The other side is protoc-gen-go's naming, an external program whose source is not part of the repository; equality of two recursive string functions over all identifiers is beyond a static rule here.",
"C29":"Atomicity across crash points depends on the file system's behaviour at run time; the code writes files in place (os.Create), so the property does not hold by design and is no guarantee baron makes; C08 decides what the code does order (render everything before the first write).",
"C30":"Byte-identity of go/printer and gofmt output over all user files is a property of the standard library's printer, not decidable from this repository's source; C01-C06 decide which content is kept.",
}
