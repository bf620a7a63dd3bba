#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Go types translate to the schema of their kind through any nesting",
 "For every supported Go type reachable by a reference, the produced schema is composed of the schemas of its parts: basic kinds give their fixed type, format and lower bound, slices and arrays give arrays (arrays with their length as limit; slices of bytes are text as encoding/json writes them), maps give objects with additional properties, structs give objects, names and aliases change nothing, and exactly pointers, slices and maps are nullable. A reference to a field, element or pointee yields exactly the schema of the Go type found at that place. A type that has no schema makes the scan fail with an error instead of producing a wrong or partial document.",
 ["programs","inputs"],"all Go types built from every basic kind and up to three type constructors, referenced whole or by a path into them",
 "the tests translate a handful of hand written structs; combinations of constructors, names, aliases and reference paths are a product no fixed table covers",
 ["internal/oapi/scan/types/types.go","internal/oapi/scan/types/point.go","internal/oapi/scan/types/scan.go"],
 [("type to schema translation","internal/oapi/scan/types/types.go type2schema"),("collection of addressable types","internal/oapi/scan/types/types.go walk")],"document returned by a scan")
p("C02","Object properties match the fields encoding/json marshals",
 "The properties of the object schema of a struct are exactly the fields that encoding/json would marshal, under the names it would use, including promoted fields of embedded structs, shadowed, ignored, renamed and unexported ones. Attributes given in the tag of a field (required, read only, write only, deprecated, nullable, format, limits, overriding name or type, inlining) take effect on exactly that property, unless it is a reference to an object, which can only be required, renamed or nullable.",
 ["programs","inputs"],"all struct declarations of up to three fields and two levels of embedding over the tag alphabet",
 "whether a field shadows, is promoted or inherits a tag depends on the combination of several declarations; the tests sample a few single structs",
 ["internal/oapi/scan/types/types.go","tag/tag.go"],
 [("field collection and promotion","internal/oapi/scan/types/types.go collectStructFields"),("object schema","internal/oapi/scan/types/types.go struct2schema")],"document returned by a scan")
p("C03","Struct tags parse to exactly the attributes written in them",
 "Parsing a struct tag yields every attribute written in its json and oapi parts with the value written there and the zero value for every attribute that is not written. The oapi part takes precedence over the json part only for what it states. A malformed number or boolean is an error, never silently another value, and makes a scan fail that refers to a type holding such a field, wherever it is.",
 ["inputs"],"all tags made of up to three options with every value form, in both parts, in every order",
 "the tests parse a few fixed tags; attributes interact by order, absence and part",
 ["tag/tag.go"],[("tag parser","tag/tag.go Parse")],"parsed tag")
p("C04","Every external reference is replaced by its schema or the scan fails",
 "In the document of a successful scan no reference with a scheme is left: each one is replaced at its place by the schema it denotes or by a local reference to the exported component holding that schema, wherever it stood (operation, parameter, component, list, configured default or override). Everything else in the document stays exactly as written, local references included. A reference that cannot be resolved makes the scan fail with an error.",
 ["programs","configurations","inputs"],"all graphs of up to three types, all choices of exports and overrides, and all reference positions",
 "resolution is a recursive rewrite of a document while it is being traversed; errors depend on how positions, exports, overrides and shared types combine",
 ["internal/oapi/resolver/resolver.go","internal/oapi/resolver/utils.go","oapi.go","internal/oapi/scan/specs/scan.go"],
 [("reference rewriting","internal/oapi/resolver/resolver.go iterator"),("local shorthand","internal/oapi/scan/specs/scan.go Scan")],"document returned by a scan")
p("C05","Recursive types terminate; exported components are complete and shared",
 "Scanning any, also mutually, recursive type graph terminates. An exported component is stored once under its name with the complete schema of its type, independent of where it is referenced first, and every reference to the type is a local reference to that component that resolves within the document. Without an export a recursive occurrence is cut with an empty schema and nothing else of the type is lost.",
 ["programs","configurations"],"all directed type graphs of up to three types (four in the thorough tier) with every set of exports and every entry order",
 "cycles of every length crossing every export boundary cannot be sampled by the single examples of the tests",
 ["internal/oapi/resolver/resolver.go","internal/oapi/scan/types/types.go","internal/oapi/scan/cmds/scan.go"],
 [("cycle cut and component export","internal/oapi/resolver/resolver.go"),("cycle detection while walking types","internal/oapi/scan/types/types.go path")],"document returned by a scan")
p("C06","The same input always gives byte-identical output",
 "Scanning and formatting the same packages, specifications and options always produces the same bytes, in every format, no matter in which order hash maps are iterated.",
 ["schedules","inputs"],"all iteration orders of every map ranged over during scan and format (bounded deviations from the default order) over a set of programs with competing choices",
 "the iteration order of maps is random, a test sees one order per run and passes when it is lucky",
 ["oapi.go","internal/container/sort.go","internal/container/utils.go","internal/oapi/oapi.go","internal/oapi/scan/types/point.go","internal/pkgutil/util.go"],
 [("ordered formatting","internal/container/sort.go"),("collection of references","internal/container/utils.go ExtractKey"),("choice of the name of a type","internal/oapi/scan/types/point.go pick")],"bytes of the formatted document, or whether it failed")
p("C07","Specifications of all reachable packages merge into one without loss",
 "The document contains the content of every specification file (oapi.yaml, oapi.yml, oapi.json carrying a version) of the root package and of all packages it imports directly or transitively, and of no other file. Two specifications that give different values for the same place make the scan fail; saying the same is allowed. Package relative references mean the package of the specification they are written in.",
 ["programs","inputs"],"all import graphs of up to three packages, all sets of file names and overlapping or disjoint contents",
 "conflicts and losses arise from combinations of files in different packages; the tests have no multi package case",
 ["internal/oapi/scan/specs/scan.go","internal/container/container.go","internal/pkgutil/info.go","internal/pkgutil/util.go"],
 [("discovery of specification files","internal/oapi/scan/specs/scan.go Scan"),("merge of containers","internal/container/container.go Merge")],"document returned by a scan")
p("C08","Merging documents follows the chosen policy and never aliases its input",
 "Merging adds every key the destination lacks, recurses where both sides are objects, and on every other collision does what the policy says: keep, replace, or fail. The merged value shares no state with the source: changing one later never changes the other, and the source is left as it was.",
 ["inputs","histories"],"all pairs and triples of documents up to a depth and width bound, under all policies, followed by mutations of either side",
 "aliasing shows only after a later mutation, and collisions depend on the pair of shapes; the tests merge two fixed documents",
 ["internal/container/merge.go","internal/container/container.go"],[("recursive merge","internal/container/merge.go Merge")],"merged container")
p("C09","Root configuration completes the document with the documented precedence",
 "Merging the root document keeps every value of the scanned specifications except the information section, where values configured in the root win; components of both are united and a place given different values in both is an error. Lists such as servers, tags and security are taken whole from one side and never mixed, and values the root does not set change nothing.",
 ["configurations","inputs"],"all combinations of absent, empty, equal and different values on both sides for every top level section",
 "every section has its own rule and every rule has four kinds of input on both sides; the tests do not touch this merge",
 ["internal/oapi/oapi.go","oapi.go"],[("root merge","internal/oapi/oapi.go MergeWithRoot")],"document returned by a scan")
p("C10","Default operations fill what matching operations leave out, nothing else",
 "A default operation is applied to every operation whose method and path match its pattern and to no other place of the document. It adds only what the operation does not state itself at any depth; every stated value stays. References used in defaults are resolved like those in specifications.",
 ["configurations","inputs"],"all documents with up to two paths and methods, all sets of up to two patterns from the pattern grammar, all overlaps of operation and default content",
 "the single test has one path, one method and one literal pattern; wrong applications need several paths, methods, patterns or non-operation keys",
 ["internal/oapi/oapi.go","oapi.go","internal/route/route.go"],[("application of defaults","internal/oapi/oapi.go SetPathsDefaults"),("pattern matching","internal/oapi/oapi.go Match")],"document returned by a scan")
p("C11","Route patterns match exactly the routes they describe",
 "A pattern matches a path if and only if the whole path can be read as the pattern with each variable standing for one non empty segment part without slash, each star for any text and every other character for itself. An optional method prefix restricts the pattern to that method, in any letter case, and has no effect when no method is given.",
 ["inputs"],"all patterns and paths up to a length bound over an alphabet with slashes, braces, stars and characters special to regular expressions, all method prefixes",
 "matching is a decision over two unbounded strings; a dozen examples cannot separate it from a matcher that is wrong on special characters or prefixes",
 ["internal/route/route.go"],[("pattern compiler and matcher","internal/route/route.go Match")],"match result")
p("C12","Concurrent matching gives the sequential answers without data races",
 "Any number of goroutines may match patterns at the same time: every call returns what it returns when run alone, whatever the interleaving, no call blocks for ever, and the shared state is never accessed without synchronisation. The same holds for scans and for formatting one document from several goroutines.",
 ["schedules"],"all interleavings of up to three threads of matching calls with shared, distinct and invalid patterns, up to a preemption bound; pairs and triples of scans and formats",
 "no test runs two calls concurrently; races and deadlocks depend on the schedule",
 ["internal/route/route.go"],[("cache of compiled patterns","internal/route/route.go compileCached")],"results of the concurrent calls, race reports")
p("C13","Pointers survive parsing and formatting and are never changed by derivation",
 "Every pointer that can be parsed is parsed again from its text, and from its JSON form, into an equal pointer, whatever characters its tokens contain. Deriving pointers from a pointer (descendant, replacement, clone, merge of sets) never changes the pointer or any pointer derived earlier.",
 ["inputs","histories"],"all token sequences up to length three over an alphabet with every special character, all derivation sequences up to a depth",
 "escaping is a bijection over all strings and aliasing needs several derivations from one pointer; the tests check single examples",
 ["internal/pointer/pointer.go","internal/pointer/fragment.go"],[("parsing and formatting","internal/pointer/pointer.go"),("derivation","internal/pointer/fragment.go Descendant, RawDescendant, Replace")],"parsed and derived pointers")
p("C14","All output formats denote the same document in the documented key order",
 "For every document, the json, pretty json, yaml and go outputs decode to the same value, which is the document itself. Top level keys come in the order openapi, info, components, paths, then the rest in a fixed order; the go output is a Go source file that compiles and whose constant is the json form. An unknown format is an error.",
 ["inputs"],"all documents up to a size bound over keys and strings with characters special to yaml, json and go, every format",
 "quoting bugs hide in characters and key combinations that fixed examples do not contain",
 ["oapi.go","temp.go","internal/container/sort.go","internal/container/container.go"],[("ordered marshalling","internal/container/sort.go"),("go file template","temp.go produceGoFile")],"bytes of the formatted document")
p("C15","Reading, addressing and rewriting documents loses nothing",
 "A document read from yaml or json holds exactly the values written in the file. Every path reported when a document is flattened or searched for a key leads back to the reported value, also for keys with dots, tildes or slashes; setting a value at a path changes that place only; a clone is equal and independent.",
 ["inputs","histories"],"all documents up to a depth and width bound over a key alphabet with special characters, all set operations at all their paths",
 "path addressing is an encoding over arbitrary keys and a write can corrupt any other place; the tests use plain keys",
 ["internal/container/container.go","internal/container/utils.go"],[("reading","internal/container/container.go ReadJSON, ReadYAML"),("dot paths","internal/container/utils.go SliceToDotPath, ExtractKey")],"containers")
p("C16","Export comments register exactly the schemas they name",
 "Every well formed export comment in any file of the scanned packages makes references to the named type local references to a component of the given name, in the one argument, two argument and uri forms, wherever the comment stands. Ordinary comments have no effect. A malformed comment, an export of one type twice or of two types under one name makes the scan fail.",
 ["programs","inputs"],"all comment texts from the directive grammar and its near misses, at every comment position, in up to two packages, in all pairs",
 "the tests parse a few directives in isolation; position, combination and near misses are not exercised",
 ["internal/oapi/scan/cmds/cmds.go","internal/oapi/scan/cmds/schema.go","internal/oapi/scan/cmds/scan.go"],[("directive parser","internal/oapi/scan/cmds/cmds.go Parse"),("export registry","internal/oapi/scan/cmds/scan.go ExportedComponents")],"document returned by a scan")
p("C17","The import graph is visited completely, once, and all errors are reported",
 "Every non standard package reachable from the roots is visited exactly once and after all packages it imports, in an order that depends on nothing but the graph; standard library packages are skipped with everything only they import. Failures do not stop the visit: the error names every package error and every failure of a visit.",
 ["programs","fault_sequences"],"all import graphs of up to four packages with every placement of standard packages, package errors and failing visits",
 "visit order and error collection are properties of the graph; no test has a graph",
 ["internal/pkgutil/util.go"],[("graph visit","internal/pkgutil/util.go Scan")],"sequence of visits and the error")
p("C18","Flags override the configuration, which overrides inherited configuration",
 "Every setting is taken from the command line flag if given, else from the configuration file, else from the configuration it extends, else from the default. Relative paths are resolved against the place documented for them: flags against the working directory, directory of the configuration against the configuration file, its output against the scanned directory, the extended file against the extending one. All sections of the configuration take part in the scan.",
 ["configurations"],"all combinations of flag, file, extended file and absence for every setting, with absolute and relative paths",
 "precedence is a product of four sources and several settings; no test runs the command",
 ["cmd/oapi/config.go","cmd/oapi/scan.go","internal/oapi/config/config.go"],[("resolution of settings","cmd/oapi/config.go full"),("extension","internal/oapi/config/config.go extends")],"effect of running the command")
p("C19","The command fails loudly and writes either nothing or the whole document",
 "When the configuration, scan or format fails the command exits with a non zero status and leaves an existing output file untouched. When it exits with zero the output, file or standard stream, holds exactly the formatted document, with no rest of an earlier one. A failing write is reported by a non zero status.",
 ["fault_sequences","crash_points"],"all placements of one fault (bad flag, unreadable, malformed configuration, failing scan, unwritable or missing target, write failing after any prefix) over every output kind and prior content",
 "no test runs the command, and faults at particular writes do not occur by themselves",
 ["cmd/oapi/main.go","cmd/oapi/config.go","internal/logging/logging.go"],[("command flow","cmd/oapi/main.go main")],"exit status, output file, standard streams")
p("C20","OpenAPI objects survive decoding and encoding unchanged",
 "Decoding a valid OpenAPI object of any kind (as used in components, overrides, default operations and the root document of a configuration) and encoding it again yields an object saying the same: no field is lost, added or changed, whatever subset of fields is present, whatever its value, and however often this is done. Only a field that states its default, or an optional text, list or map that is empty and so says nothing, may be left out, and what stands beside a reference does not count.",
 ["inputs"],"for every object kind: every single field, every pair (thorough: every three) of fields, all fields and all but one, and every nested object with each field, over boundary values, by five ways of decoding and encoding",
 "the tests decode a few sample documents and do not compare what comes out; a lost field shows only when it is present",
 ["internal/oapi/spec/schema.go","internal/oapi/spec/operation.go","internal/oapi/spec/components.go","internal/oapi/spec/callback.go","internal/oapi/spec/any_or_expressions.go"],[("object model","internal/oapi/spec"),("custom encoders","internal/oapi/spec/callback.go, any.go, any_or_expressions.go, schema.go")],"encoded JSON")
p("C21","Schema and object builders change exactly the attribute they are named after",
 "Every builder call sets, adds or removes exactly the attribute it is named after with the value given, keeps everything else, returns the object itself, and works on a fresh as on an already populated object, in every order of calls. Adding nothing under a name removes what is there under that name. Constructors yield exactly the object of their kind with the values given, a new one for each call; the servers made of addresses hold every address once and a template of all of them; every kind of component knows the section it stands in; a path item lists exactly its operations. No call changes the lists it is given, and objects made from the same list stay independent of each other.",
 ["histories"],"all sequences of up to three builder calls over the complete builder surface",
 "the builders are hardly called by tests; interactions need sequences",
 ["internal/oapi/spec/schema_util.go","internal/oapi/spec/response_util.go","internal/oapi/spec/security_scheme_util.go","internal/oapi/spec/server_util.go","internal/oapi/spec/parameter_util.go","internal/oapi/spec/xml.go"],[("builders","internal/oapi/spec/*_util.go, xml.go")],"encoded JSON after each call")
p("C22","Any readable package and specification gives a document or an error",
 "For every readable Go package, specification and option value, a scan ends with a document or an error: it never crashes, never runs for ever and never returns a document together with an error. When the scan reports success the document is a JSON object holding the version, paths and components of the specifications.",
 ["programs","inputs"],"all specifications up to a size bound with every kind of value (null, scalar, list, object) at every structural position, and all Go declarations kinds at every referenced position",
 "malformed shapes at any position of a document are a product tests do not sample; a crash shows for one shape only",
 ["oapi.go","internal/oapi/resolver/resolver.go","internal/oapi/oapi.go","internal/container/container.go","internal/oapi/scan/types/types.go"],[("scan pipeline","oapi.go Scan")],"result of a scan")
p("C23","The schema of a Go type accepts every value encoding/json writes for it",
 "For every supported Go type without methods, each value of the type written by encoding/json is accepted by the schema the scan produces for the type (read as the OpenAPI 3.0.3 standard reads schemas: nullable, oneOf, anyOf, limits, required, references into components), and every member of a written object is described by it. This holds for the whole type and for the place of a field in it, whether or not types are exported as components. Attributes the user asks for in a tag (required, limits) are the user's own.",
 ["programs","inputs"],"all Go types of up to three constructors over every basic kind with all shapes of their values (nil, empty, one, many, extremes, recursion to depth four), and declared recursive, embedding, renaming and quoting types",
 "a schema and its values meet only when both are enumerated; the tests compare schemas with expected texts and never with a value",
 ["internal/oapi/scan/types/types.go","internal/oapi/resolver/resolver.go","tag/tag.go"],
 [("type to schema translation","internal/oapi/scan/types/types.go type2schema"),("pointers","internal/oapi/scan/types/types.go pointer2schema"),("fields","internal/oapi/scan/types/types.go struct2schema")],"document returned by a scan against values written by encoding/json")
p("C24","The document depends only on what its specifications refer to",
 "A change of the program that alters nothing the specifications refer to leaves the document as it is, byte by byte: declarations, methods, values, comments, unused exports, ignored or unexported fields, packages without specification, tests and other files that are added; declarations, fields, files, packages and imports that are ordered, grouped, split, named or aliased in another way; specifications written in another format or layout, with other but equal references, or distributed over other packages; options that concern nothing in use; and the directory given in another way.",
 ["programs","configurations"],"every single one and every two of 240 such changes at all places of a program of three packages with three sets of exports",
 "the tests never compare two programs; an influence of something unrelated shows only for the one change that exercises it",
 ["oapi.go","internal/oapi/scan/cmds/scan.go","internal/oapi/scan/specs/scan.go","internal/oapi/scan/types/types.go","internal/oapi/scan/types/point.go","internal/pkgutil/util.go"],
 [("scan pipeline","oapi.go Scan"),("collection of types","internal/oapi/scan/types/types.go walk"),("choice of a pointer","internal/oapi/scan/types/point.go pick")],"bytes of the formatted document before and after the change")
p("C25","Valid specifications give a valid OpenAPI document",
 "Whenever the specifications of a program, completed by the root document and the default operations of the configuration, make a valid OpenAPI document apart from the references to Go types, the document written is valid by the text of OpenAPI 3.0.3: every object has the fields it must have, none of another kind and none unknown; every reference denotes an object of the kind wanted within the document; arrays have items; required names are not repeated; parameters, operation ids, security requirements, tags and templates agree with each other. No go:// reference is left. The document is a specification itself: alone in a package it is scanned to the same document.",
 ["programs","configurations"],"every Go type of a family at every place of a schema in a document holding every kind of object, all places at once, the sections distributed over two packages, completed by root documents and default operations, with and without exports",
 "validity of the whole document is a property of all parts together; the tests compare documents with expected texts for a few inputs",
 ["oapi.go","internal/oapi/oapi.go","internal/oapi/resolver/resolver.go","internal/oapi/scan/types/types.go","internal/oapi/spec"],
 [("scan pipeline","oapi.go Scan"),("replacement of references","internal/oapi/resolver/resolver.go"),("schemas of types","internal/oapi/scan/types/types.go")],"formatted document against a validator of OpenAPI 3.0.3")
p("C26","Messages tell the cause at the level asked for and never mix with the document",
 "With a log level of fatal or more talkative a run that fails tells its cause, as the library gives it, on the standard error stream, whatever characters it holds; with nolog nothing is written there and no message is less severe than the level asked for. The level has no influence on the exit status, the document or where it is written, and a run without failure reports none. Wrong flags are always told, --help tells every flag and does nothing else. Loggers given to the library get level, text and arguments unchanged, and names of levels are read in any case and no other names are.",
 ["configurations","fault_sequences"],"every failure of flags, configuration, scan, format and output by every log level and kind of output; every sequence of two messages over all helpers and printers; every mixture of cases and one byte edit of every level name",
 "the level multiplies every outcome of the command, and no test runs it or calls the logger",
 ["cmd/oapi/main.go","cmd/oapi/config.go","internal/logging/logging.go"],
 [("messages of the command","cmd/oapi/main.go main"),("log level","cmd/oapi/config.go logrus"),("helpers","internal/logging/logging.go")],"standard streams, exit status, calls of a logger")
p("C27","An override replaces the schema of its type wherever the type is referred to",
 "A reference for which the options or the configuration hold an override denotes the schema of the override: in specifications, in other overrides, at fields, elements and pointees of struct types and of types of the standard library, in exported components, for types that have no schema of their own and for references nothing else resolves. References within the override are resolved as everywhere. Tags of fields work as for any reference. Nothing else is changed: not types of the same name, of equal structure, declared from it or holding it, not places within it, and an override of something not referred to has no effect.",
 ["programs","configurations"],"seven kinds of types by eight overrides by exports by fields of up to two (thorough three) type constructors, tags, near miss keys, types without schema and foreign references",
 "overrides meet references in the translation of types, in resolution and in exports; the tests have no override at all",
 ["oapi.go","internal/oapi/resolver/resolver.go","internal/oapi/scan/types/types.go"],
 [("lookup of overrides","oapi.go Scan"),("references of types","internal/oapi/scan/types/types.go reference2schema"),("export of overridden types","internal/oapi/resolver/resolver.go export")],"document returned by a scan")
p("C28","A scan depends on nothing but its options and the files of the moment",
 "What a scan gives, document or error, is what the same scan gives in a process of its own with the files as they are at that time, whatever scans came before it in the process: of other programs that have packages of the same paths and names, with the same or other overrides, defaults and root specification, failing ones, and scans of the same program before its files were edited. A scan changes neither the values its options were made of nor files, working directory or environment, and a document once returned is not changed by later scans or by changes to the values the options were made of.",
 ["operation_sequences"],"every sequence of three scans and edits over six programs, five sets of options and three edited files, every sequence of five over a third of these",
 "state kept between scans shows only in sequences of scans in one process and every test has but one",
 ["oapi.go","internal/oapi/scan/oapi.go","internal/oapi/resolver/resolver.go"],
 [("scan","oapi.go Scan"),("options","option.go"),("collecting of packages","internal/oapi/scan/oapi.go scan")],"documents of scans in processes of their own")
p("C29","Scans and formats at the same time give what each gives alone",
 "Any number of scans and formats may run at the same time in one process, of different programs or the same, with directories given relative to the working directory, with the same values of options or others, failing or not, and of documents that are shared: each gives the document, text or error it gives alone, in every interleaving, without data races, without blocking, and leaves working directory, environment and options as they were.",
 ["schedules"],"every two of seven scans and formats in every interleaving with one preemption at function and statement level; thorough three at once and two preemptions",
 "state shared for the time of a scan shows only while another scan runs; no test runs two",
 ["oapi.go","internal/pkgutil/util.go","internal/oapi/scan/types/types.go"],
 [("scan","oapi.go Scan"),("format","oapi.go Format"),("visit of packages","internal/pkgutil/util.go Scan")],"results of the same calls alone; the race detector")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
