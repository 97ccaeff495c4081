import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    P.append(d)
GP="parse/internal/parser/gen-parser.go"
p("C01","The parser accepts exactly the trunnel language",
 "A text is accepted as a trunnel file if and only if it is derivable from the trunnel grammar published with the project (parse/trunnel.pigeon). Every other text is rejected with an error and yields no syntax tree.",
 ["inputs"],"Every text: valid files in any layout, files one token away from valid, arbitrary garbage.",
 "The tests parse about 25 good files, 16 bad files and some 60 snippets; the language is infinite and most near-miss texts are never tried.",
 [GP,"parse/parse.go","parse/trunnel.pigeon"],[("PEG rules and the matcher engine",GP),("error to nil-tree mapping","parse/parse.go cast")],["parse.String result and error"])
p("C02","The syntax tree says exactly what the source text says",
 "For every accepted text the resulting tree holds each declaration of the text exactly once and in source order (structs defined inline come after all top-level ones, in the order in which their definitions end), with exactly the written names, integer sizes and values, constraints, array lengths, union tags, cases, directives, contexts and pragma options. Nothing is dropped, duplicated, merged or attached to a different element, and an extern declaration stays distinguishable from a struct with no members.",
 ["inputs"],"Every accepted text, in particular rare combinations, long lists, inline definitions reached through backtracking, and boundary integers.",
 "Each grammar construct is asserted on one hand-written example; combinations, list lengths, nesting and boundary values are not.",
 [GP,"parse/trunnel.pigeon","ast/types.go"],[("grammar actions building nodes",GP),("lingering-declaration state rolled back on backtracking",GP)],["parse.String tree"],
 [dict(name="lingering declarations",meaning="inline structs seen so far on the current parse path",where=GP)])
p("C03","Layout, comments and integer notation carry no meaning",
 "Changing only the whitespace, line breaks and comments between the tokens of a file, adding optional semicolons after declarations, or rewriting an integer in another base (decimal, hexadecimal, octal) never changes whether the file is accepted nor the tree it yields.",
 ["inputs"],"Every valid file and every re-layout of it.",
 "Tests fix one layout per construct and three literal spellings.",
 [GP,"parse/trunnel.pigeon"],[("skip rules for whitespace and comments",GP),("integer literal rule",GP)],["parse.String trees of text variants"])
p("C04","All parsing entry points agree and report every I/O failure",
 "Parsing the same content from a string, from a reader that delivers it in any chunking, or from a file gives the same tree or the same failure. Parsing several files returns one tree per file in the order given, or an error and no trees if any of them cannot be read or parsed. A read error at any point of the stream is reported, never mistaken for the end of the file.",
 ["inputs","fault_sequences"],"Every content, chunking, file list and read-error position.",
 "Tests try one missing file and one reader that fails on the first read.",
 ["parse/parse.go",GP],[("ParseFile / ParseReader",GP),("Files loop and cast","parse/parse.go")],["parse.File, parse.Files, parse.Reader, parse.String results"])
p("C05","Parsing is total, repeatable and shares no state between calls",
 "On any byte sequence, including invalid UTF-8 and truncated files, parsing returns either a tree or an error (exactly one of them) and never panics. Results depend only on the text: parsing it again, after any other parses or while others run concurrently, gives an equal tree, and modifying one returned tree never affects another tree or a later parse.",
 ["inputs","histories","schedules"],"Every byte sequence, every sequence of earlier parses and every interleaving of concurrent parses.",
 "No test parses garbage, parses concurrently, or mutates a tree and parses again.",
 [GP,"parse/parse.go","ast/types.go"],[("panic recovery",GP),("fresh node per match, pooled state maps",GP)],["parse results, race detector reports"],
 [dict(name="state pool",meaning="process-wide pool of parser state maps",where=GP)])
p("C06","A syntax error names the file and the offending place",
 "When a file is rejected because of a character that cannot start any token allowed at its position, the error message gives the file's name followed by the line and column of that character, counted from one in lines and characters (not bytes). An integer literal that does not fit in 63 bits is reported at the literal itself.",
 ["inputs"],"Every valid file, every position in it, every file name, multi-byte characters and line breaks before the position.",
 "No test looks at an error position.",
 [GP,"parse/parse.go"],[("farthest failure tracking and position counting",GP)],["parse.Reader and parse.File error text"])
p("C07","Generated packages compile and expose the documented types",
 "For every well-formed set of trunnel files the generated Go package compiles. It declares one exported type per context and non-extern struct with one field per member in declaration order (members of all union cases included), integers of the declared width, strings for nul-terminated fields, byte for char, fixed-size arrays, slices, pointers to nested structs and int for positions, plus a Parse method and a Parse<Type> constructor that take the declared contexts in order.",
 ["programs"],"Every well-formed specification (distinct identifiers after conversion to Go names, none of them a Go keyword or predeclared name, and contexts not named like a local name of the generated code: a single letter, data, cur, err, idx, tmp, restore, left).",
 "The repository compares 17 fixed specifications with golden files and builds about 20 more.",
 ["gen/decl.go","gen/printer.go","gen/core.go"],[("type and signature emission","gen/decl.go"),("import fixing","gen/printer.go")],["generated source, go/types and the Go compiler"])
p("C08","Generated parsers decode every field to the value the format defines",
 "For every specification and input, the generated parser accepts exactly when the reference meaning of the format does, and stores exactly the decoded values: big-endian integers of the declared width, nul-terminated strings without the terminator, nested structs, and fixed and counted arrays with exactly the declared number of elements in order.",
 ["programs","inputs"],"Every specification built from integers, strings, chars, nested structs and arrays, and every input.",
 "Golden packages exercise each member kind with a couple of inputs.",
 ["gen/decl.go","parse/trunnel.pigeon",GP,"ast/types.go"],[("parseType/parseIntType/parseArray emission","gen/decl.go")],["values and error returned by generated Parse methods"])
p("C09","Integer constraints are enforced exactly",
 "A generated parser accepts a constrained integer field if and only if its value is in the union of the listed values and inclusive ranges, with constants replaced by their declared values, whatever the field's width and wherever the field occurs.",
 ["programs","inputs"],"Every constraint list (including bounds at 0 and at the type's maximum, adjacent and repeated ranges, constants in every notation) and every field value.",
 "Tests check a date structure and a three-value list.",
 ["gen/decl.go","inspect/inspect.go",GP],[("conditional emission","gen/decl.go conditional"),("constant resolution","inspect/inspect.go Integer")],["accept/reject verdict of generated parsers"])
p("C10","Unions parse the case selected by the tag and nothing else",
 "For every tag value a generated parser parses exactly the members of the first case whose value list contains the tag, or of the default case when no list does; fields of other cases stay untouched. A fail case always rejects, an ignore directive or trailing ellipsis consumes the rest of the enclosing extent, and an empty case consumes nothing.",
 ["programs","inputs"],"Every union shape (case lists, ranges, default anywhere, directives) and every tag value and input.",
 "Tests cover five fixed unions with a handful of tags.",
 ["gen/decl.go",GP],[("switch emission","gen/decl.go parseUnionMember"),("case parsing",GP)],["values and error returned by generated Parse methods"])
p("C11","Declared extents are respected to the byte",
 "Members with an extent (unions with a length field, unions and arrays that leave a fixed number of trailing bytes, remainder arrays, structs that must end the input) consume exactly that extent: the input is rejected when the extent does not fit, when the contents overrun it or when they leave bytes of it unread, and parsing continues exactly after it.",
 ["programs","inputs"],"Every nesting of extents and every input, especially lengths off by one and element sizes that do not divide the extent.",
 "Tests cover five fixed structures with few inputs.",
 ["gen/decl.go"],[("constrained / assertEnd emission","gen/decl.go"),("remainder loop","gen/decl.go parseArray")],["values and error returned by generated Parse methods"])
p("C12","Context parameters reach every use, however deep",
 "A struct declared with contexts uses exactly the values of the context objects passed by the caller for its tags, array lengths and union lengths, and passes those same objects on to nested structs that declare them, regardless of the number of contexts and the order in which each struct lists them.",
 ["programs","inputs"],"Every arrangement of contexts over nested structs, every context value and input.",
 "One fixed specification with two contexts is tested.",
 ["gen/decl.go","inspect/inspect.go",GP],[("contextSignature/contextArgs/ref emission","gen/decl.go")],["values and error returned by generated Parse methods"])
p("C13","Generated parsers survive hostile input",
 "On every input and every context value, a generated parser returns normally: it never panics, never loops without making progress, and allocates memory in proportion to the input it was given plus at most 65535 elements per counted array, even when length fields of any width claim more data than there is.",
 ["programs","inputs"],"Every specification whose array elements occupy at least one byte (remainder arrays of possibly empty elements included) and every input, in particular huge 32-bit and 64-bit lengths.",
 "No test feeds hostile lengths; the golden packages only use 8- and 16-bit lengths.",
 ["gen/decl.go"],[("length checks before reads","gen/decl.go lengthCheck"),("element-wise growth for wide lengths","gen/decl.go parseArray")],["panics, CPU time and allocated bytes of generated Parse calls"])
p("C14","Parsing is local: it reports exactly what it consumed and touches nothing else",
 "On success the returned slice is exactly the unread tail of the input; the result does not depend on bytes after the consumed part unless the format is greedy, position members hold the offset from the start of their struct's input, the input buffer (also beyond its length) is never written or read out of bounds, and the parsed object keeps its values when the input buffer is later overwritten.",
 ["programs","inputs","histories"],"Every specification, every input and every later modification of the input buffer.",
 "Tests check the rest slice for a few inputs; aliasing, capacity overreads and writes are not checked.",
 ["gen/decl.go"],[("cursor slicing","gen/decl.go"),("position emission","gen/decl.go parseType Ptr")],["returned slices, guarded input buffers before and after"])
p("C15","Truncated or invalid input is never half accepted",
 "For a format without greedy parts, every proper prefix of the bytes consumed by a successful parse is rejected. Whenever parsing fails the method returns an error and no rest slice, the constructor returns no object, and whenever it succeeds the constructor returns an object equal to the one the method fills; the two always agree.",
 ["programs","inputs"],"Every specification, every accepted input and every cut point.",
 "Tests cut a few inputs at a few points.",
 ["gen/decl.go"],[("lengthCheck emission and error returns","gen/decl.go"),("parseConstructor","gen/decl.go")],["results of generated Parse methods and constructors"])
p("C16","Every generated test vector is valid for its type",
 "Every test vector produced for a struct, with any selector and random source, is accepted by the meaning of that struct when the context fields hold the vector's recorded constraint values, and (unless the struct ends in a greedy ignore) is consumed to its last byte.",
 ["programs","inputs"],"Every specification for which vector generation is implemented (greedy members last in their struct and in the structs that contain it), every seed and selector.",
 "Tests assert exact bytes for a few structs and only vector counts for the tor and trunnel files.",
 ["tv/generator.go","tv/constraints.go","inspect/branches.go","internal/intervals/intervals.go"],[("backwards member generation under constraints","tv/generator.go")],["tv.GenerateFiles output"],
 [dict(name="constraints",meaning="values fixed for tag and length fields",where="tv/constraints.go")])
p("C17","The vector corpus covers every struct and every reachable union case",
 "Without a limiting selector the corpus has one suite per non-extern struct in declaration order, and for every union case of a struct that can succeed there is a vector whose tag selects that case. Looking up a type returns its suite's vectors; a sampling selector keeps the list when it is within the limit and otherwise keeps exactly the limit, without repeats or inventions.",
 ["programs","inputs"],"Every specification for which vector generation is implemented and in which a field serves one union or array only, every seed.",
 "Tests count vectors for a few unions.",
 ["tv/generator.go","tv/corpus.go","tv/selector.go","inspect/branches.go"],[("union branch enumeration","tv/generator.go union"),("selectors","tv/selector.go")],["tv.GenerateFiles output"])
p("C18","Generation is reproducible",
 "Generated source, tests, fuzzers and vectors are a function of the parsed files, the package name and the seed only: repeated runs in the same or another process, in any output directory, after any other generation, give byte-identical results. Generation does not modify the syntax trees it is given.",
 ["programs","histories","configurations"],"Every specification, seed, output directory and history of earlier generations in the process.",
 "The golden test runs each specification once with one seed.",
 ["gen/core.go","gen/decl.go","tv/generator.go","inspect/inspect.go"],[("seeded random source","gen/core.go Package"),("ordered traversal of declarations","gen/decl.go, tv/generator.go")],["generated bytes and syntax trees before and after"])
p("C19","Package output is complete, self-consistent and reports every write failure",
 "Generating a package writes the marshallers and, when vectors are available, a test file, a fuzzer file and one corpus file per distinct vector named by the SHA-256 of its content under testdata/fuzz/<struct>/corpus, all below the output directory and nothing else. The generated tests contain every vector of every struct declared without contexts, pass, and would fail if one of the vectors were rejected; the generated fuzz functions return 1 exactly for accepted input, and a failure to write any of the files is returned as an error.",
 ["programs","fault_sequences"],"Every specification and every output file whose creation fails.",
 "The golden test compares three files per specification; failures are never injected and the corpus directory is not compared.",
 ["gen/core.go","gen/tests.go","gen/fuzz.go","tv/corpus.go"],[("Package sequence","gen/core.go"),("WriteCorpus","tv/corpus.go")],["files written, their content, outcome of go test on them"])
p("C20","Interval sets behave as sets of 64-bit integers",
 "Membership, overlap detection, simplification, subtraction, size and text form of integer interval collections agree with plain set arithmetic over all 64-bit values, and random choice always terminates and returns a member, being able to return every member.",
 ["inputs"],"Every collection of intervals, including empty ones, single points, touching intervals and the bounds 0 and 2^64-1.",
 "Tests cover about thirty fixed cases.",
 ["internal/intervals/intervals.go"],[("threshold sweep over edges","internal/intervals/intervals.go thresholds"),("rejection sampling","internal/intervals/intervals.go randuint64n")],["results of the exported functions"])
p("C21","Name resolution finds the right declaration or reports an error",
 "Looking up structs, contexts, constants, integers, integer lists and integer-typed references returns exactly what was declared in the files added so far. Duplicate structs or contexts, redefinition of a complete struct, conflicting constant values, undefined names, references to non-integer fields and reversed or overlapping integer lists are reported as errors; a definition replaces an earlier extern declaration and repeated equal constants are allowed.",
 ["histories","inputs"],"Every sequence of added files and declarations and every lookup.",
 "Tests cover about twenty fixed sequences.",
 ["inspect/inspect.go","ast/types.go"],[("AddFile/AddStruct/AddContext/SetConstant","inspect/inspect.go"),("Integer/Intervals/IntType","inspect/inspect.go")],["resolver results"])
p("C22","Union branches partition the tag values as the parser does",
 "For every union and every tag value of its type, branch lookup returns the same case the generated parser would take: the first case listing the value, the default case for exactly the values no case lists, and nothing if there is no default. The value sets reported for the branches agree with lookup.",
 ["programs","inputs"],"Every union over tags of every width, local or from a context, and every tag value.",
 "Tests look at two unions and eight tag values.",
 ["inspect/branches.go","internal/intervals/intervals.go","inspect/inspect.go"],[("default set by subtraction","inspect/branches.go"),("first-match lookup","inspect/branches.go Lookup")],["inspect.NewBranches results"])
p("C23","Splitting a format over several files changes nothing",
 "Distributing the declarations of a specification over several files that are generated together, with extern declarations for structs defined in later files, yields a package with the same types and the same parsing behaviour, and the same set of vector suites, as the single file. Constants and contexts declared in one file are visible in all of them.",
 ["programs","inputs","configurations"],"Every specification, every split into files and every input.",
 "Two testdata groups with extern structs are built, and their behaviour is never compared.",
 ["gen/decl.go","gen/core.go","tv/generator.go","inspect/inspect.go","parse/parse.go"],[("shared resolver over all files","inspect/inspect.go NewResolverFiles"),("extern structs skipped in output","gen/decl.go structure")],["generated source and behaviour of the split and single forms"])
p("C24","The command-line tool does what it was asked or fails loudly",
 "trunnel build with a package name, output directory and one or more files leaves in that directory exactly the package that library generation produces for those files and exits with status 0. With no file arguments, or when any file is missing, unreadable or invalid, or the output cannot be written, it prints a message and exits with a non-zero status; invalid input leaves no generated package behind.",
 ["programs","configurations","fault_sequences"],"Every combination of flags, file lists, working directories and failing files.",
 "The command has no tests.",
 ["cmd/trunnel/trunnel.go","gen/core.go","parse/parse.go"],[("build action","cmd/trunnel/trunnel.go")],["exit status, messages and files of the built binary"])
p("C25","Specifications that make no sense are refused with an error",
 "A syntactically valid specification that uses an undefined constant, struct or context, refers to a tag or length that is missing or not an integer, declares a struct or context twice or a constant with two values, or contains a reversed or overlapping value range makes generation of source and packages return an error and write nothing; generation never panics on any specification the parser accepts and never reports success for such a specification.",
 ["programs"],"Every accepted specification with at least one semantic fault, in every position where the fault can occur, and every sensible one.",
 "A few resolver errors are tested; the generators are only run on sensible specifications.",
 ["gen/decl.go","gen/core.go","inspect/inspect.go","tv/generator.go","inspect/branches.go"],[("resolver errors","inspect/inspect.go"),("error returns of generation","gen/decl.go, gen/core.go")],["error or panic of gen.Package, gen.Marshallers and tv.GenerateFiles"])
p("C26","Generation and generated code are safe for concurrent use on separate objects",
 "Generated parsers working on different objects, and parsing, generation and vector generation working on different files, may run concurrently: there are no data races and every call gives the result it gives when run alone.",
 ["schedules","programs"],"Every interleaving of concurrent calls on distinct objects.",
 "No test runs anything concurrently.",
 ["gen/decl.go","gen/core.go","tv/generator.go","inspect/inspect.go","parse/parse.go",GP],[("absence of package-level mutable state","all packages")],["race detector reports, results compared with sequential runs"])
p("C27","Constraint sets keep values, scopes and copies apart",
 "A constraint set returns for each scope and name the value last successfully recorded; recording a different value is an error that changes nothing, recording the same value is harmless, and clearing a scope removes exactly that scope. Copies and merges are independent of their sources, a merge is the union of both sets and fails exactly when they disagree on some name.",
 ["histories"],"Every sequence of operations over several sets, scopes and names.",
 "Constraint sets have no direct tests.",
 ["tv/constraints.go"],[("nested maps with conflict check","tv/constraints.go")],["results of the exported operations"])
p("C28","An object can be reused for another parse",
 "Parsing into an object that was used before (successfully or not) gives the same outcome, the same rest and the same values for all members the new input defines as parsing into a fresh object, and objects obtained earlier are not altered by later parses into other objects. Arrays and nested structs taken out of an object keep their values when the object is parsed into again.",
 ["histories","programs","inputs"],"Every specification and every sequence of inputs parsed into the same object.",
 "Tests always parse into fresh objects.",
 ["gen/decl.go"],[("slices and nested structs re-created on each parse","gen/decl.go parseArray, parseType")],["values after each parse of a sequence"])
p("C29","Generated files are formatted, marked as generated and complete",
 "Every generated Go file is syntactically valid, in the form gofmt produces, marked as generated in the way Go tools recognise, in the requested package, and imports standard packages only, each once; fuzz files, and no others, are restricted to fuzzing builds. For every corpus of vectors the test file has exactly one test function per suite whose vectors record no constraints, in order, holding exactly the bytes of each vector in order, and the fuzz file exactly one fuzz function for each of the same suites.",
 ["programs","inputs"],"Every specification, package name and corpus of vectors, including empty, repeated and very long vectors, and suites without vectors.",
 "Golden files pin the form for seventeen fixed specifications; no test generates tests and fuzzers for other corpora, empty or very long vectors, or other package names.",
 ["gen/printer.go","gen/tests.go","gen/fuzz.go","gen/decl.go","gen/core.go"],[("header and package clause","gen/printer.go"),("test functions with vectors","gen/tests.go"),("fuzz functions","gen/fuzz.go")],["bytes returned by gen.Marshallers, gen.CorpusTests and gen.Fuzzers, files written by gen.Package"])
p("C30","A corpus written to disk is complete and exact",
 "Writing a corpus of vectors creates, for every suite, the directory <type>/corpus under the given directory, holding for each vector a file named by the hexadecimal SHA-256 digest of its bytes with exactly those bytes, and nothing else. Files that are there already under the same name are replaced, others are kept, writing again changes nothing, the corpus is not altered, and whatever cannot be created or written completely is reported as an error.",
 ["inputs","environment"],"Every corpus, including empty, equal and large vectors, suites without vectors and repeated suites, and every content of the directory beforehand.",
 "One test writes one vector of five bytes to an empty directory.",
 ["tv/corpus.go"],[("directories and files per suite","tv/corpus.go writecorpus"),("file names by digest","tv/corpus.go sha256namer")],["error of tv.WriteCorpus and the files below the directory"])
p("C31","The helpers of the test suites see what is there",
 "The file groups of a directory are exactly one per trunnel file in it, consisting of that file followed by its listed dependencies in order; a missing dependency file means no dependencies, a malformed or unreadable one is an error. Two files compare as equal if and only if all their bytes are equal, and a file that cannot be read is an error. Building sources succeeds if and only if they compile together, leaves nothing behind and does not alter them; a test over a pattern visits every matching file once and fails if one of them does, and temporary directories are new and gone after cleaning up.",
 ["inputs","environment"],"Every directory content, every pair of file contents, every set of Go sources.",
 "The tests of the project rely on these helpers and would pass for the wrong reason if they were wrong; only FileExists has a test.",
 ["internal/test/utils.go"],[("groups from deps.yml","internal/test/utils.go LoadFileGroups, LoadDependenciesDir"),("file comparison","internal/test/utils.go FileContentsEqual"),("go build of sources","internal/test/utils.go Build")],["values and errors returned by the helpers, outcome of tests run with them, files left in the temporary directory"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
try:
    import jsonschema
except ImportError:
    raise SystemExit(len(P))
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P))
