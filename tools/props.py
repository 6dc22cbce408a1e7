SCEN = "abstract interpretation of the SSA form on symbolic inputs"
SCEN_NOTE = ("Each obligation is one abstract case that covers every concrete input of that shape; the code is analysed, never run. "
  "Trusts the Go type checker, the SSA builder and the models of library functions named in DESIGN.md; list and map shapes are bounded, scalar contents are not.")
FLOW_NOTE = ("Covers every path of every function in scope as an over-approximation; trusts the Go type checker, the SSA builder, "
  "the call graph and the stated contracts of library functions.")
TESTS = "The existing tests evaluate 25 fixed documents and compare the text; "

PROPS = []
NA = {}

def P(id, title, statement, over, quant, why, files, mech, tech=SCEN, note=SCEN_NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note))

P("C01", "Shell commands run only with permission",
  "A document can start an external command through the command operator only when commands were allowed on the command line or after the user confirmed that command by pressing Enter; when confirmation is not given because standard input cannot be read, nothing is started. What is started is exactly the program and arguments the document names, as an argument vector and not through a shell. A failing command makes the document fail.",
  ["programs", "configurations"], "every document, every path to a process start, allowed or not",
  "No test starts a command or answers the prompt; the guard must hold on every path that reaches a process start.",
  ["lib/exec.go", "cmd/build.go"], [("confirmation before the start", "lib/exec.go opCmd"), ("option set from the flag", "cmd/build.go")],
  SCEN + ", event ordering", SCEN_NOTE)
P("C02", "Go packages run only when allow-listed",
  "The Go-run operator starts a package only when its name is matched in full by one of the user's allow-list patterns, where only '*' is a wildcard and every other character stands for itself. With no allow-list, or when the list cannot be read, nothing is started and evaluation fails. The package that was checked is the package that is started.",
  ["programs", "configurations"], "every package name and every allow-list",
  "No test runs a package; the guarantee covers all patterns and names.",
  ["lib/exec.go"], [("allow-list check", "lib/exec.go isPkgAllowed, opGoRun")],
  SCEN + ", event ordering", SCEN_NOTE)
P("C03", "Evaluation has no side effects outside its schema cache",
  "Evaluating, checking and rendering a document never creates, changes or deletes files other than cached schemas below the user's schema cache directory, and never changes the environment or working directory. Network access is limited to fetching sources and schemas by GET. Processes are started only by the two execution operators.",
  ["programs", "inputs"], "every document and every call path from the evaluation entry points",
  "A test can only notice effects it looks for; this bounds every effect reachable from evaluation.",
  ["core/schema.go", "lib/files.go", "lib/exec.go", "engine/engine.go"], [("schema cache writes", "core/schema.go"), ("all other library calls are reads", "engine, core, lib")],
  "interprocedural effect analysis over the call graph with path provenance", FLOW_NOTE)
P("C04", "HTTP content is used only after a success status",
  "Content fetched over HTTP, whether a source document or a schema, is evaluated, parsed or cached only when the server answered with status 200. Every other status, and every transport error, makes the operation fail.",
  ["inputs", "fault_sequences"], "every response a server can give at every fetch",
  "Tests have no network, so no response is ever seen.",
  ["engine/util.go", "core/schema.go", "core/util.go", "cmd/cachekubeschemas.go"], [("status test before the body is read", "every http.Get")],
  "path-sensitive dataflow from each HTTP request to the uses of its body", FLOW_NOTE)
P("C05", "Opened files and responses are always closed",
  "Every file, HTTP response body or similar handle opened while evaluating or by a command is closed on every path, including error paths, or handed to a caller that closes it. Evaluating many documents in one process therefore does not exhaust file descriptors.",
  ["programs", "fault_sequences", "histories"], "every path from an acquisition to a return",
  "Tests open a few dozen files and never look at what remains open, and error paths are not taken.",
  ["engine/util.go", "engine/engine.go", "core/schema.go", "core/util.go", "lib/files.go", "cmd/krm.go"], [("deferred closes", "each os.Open, os.Create, http.Get")],
  "typestate analysis of handles over all control-flow paths", FLOW_NOTE)
P("C06", "No input makes an index or slice go out of range",
  "Whatever a document, schema or pointer contains, and however many arguments an operator or special form is given, evaluation never indexes or slices beyond the end of a list or string. Malformed input is answered with an error.",
  ["inputs", "programs"], "every operator arity, list length and string content",
  "Tests call operators with valid argument counts only.",
  ["lib/*.go", "engine/*.go", "core/*.go", "cmd/*.go"], [("length guards before indexing", "each operator")],
  "bounds proof per index, slice and allocation: difference constraints from dominating conditions, definitions and call sites",
  FLOW_NOTE + " Integer overflow is ignored, and mapping nodes made by the YAML parser are trusted to hold keys and values in pairs; the indexing inside the YAML package itself is not decided.")
P("C07", "Values of an unexpected type give an error, not a crash",
  "Every operator and special form accepts operands of any kind in any position without crashing: an operand of a kind it does not handle yields an error. The same holds for schemas, patches and Kubernetes manifests with members of unexpected types.",
  ["inputs", "programs"], "every operator with every combination of operand kinds",
  "Tests pass operands of the expected kinds.",
  ["lib/*.go", "engine/*.go", "core/*.go", "cmd/krm.go"], [("checked type assertions", "each operator")],
  SCEN + "; plus a whole-program type proof: unchecked assertions, comparisons and map keys of unknown type, divisions, shifts, counts and panics are each proved harmless from dominating type tests, callers' arguments and the types nodes of each kind are made with",
  SCEN_NOTE + " The proof assumes the Go type checker and closed-world call sites; indexes are C06's, nil values C08's.")
P("C08", "Absent values never crash evaluation",
  "A missing, null or undefined value, environment, schema or map entry is answered with an error or treated as null; it never leads to a nil dereference. This includes schemas without type or properties, empty maps and lists, and lookups that find nothing.",
  ["inputs", "programs"], "every optional value at every use",
  "Tests rarely contain absent values.",
  ["core/*.go", "engine/*.go", "lib/*.go", "cmd/*.go"], [("nil tests before use", "schema, environment and map lookups")],
  "nilness proof: dominating tests, results paired with their error, and whole-program invariants of fields, elements and boxed values kept as a greatest fixpoint",
  FLOW_NOTE + " Relies on C09 (nothing goes on after a failure), on C07 for type assertions, and trusts the YAML parser to build whole trees.")
P("C09", "Failures inside evaluation always surface as errors",
  "When evaluating, loading, parsing or checking any part of a document fails, the failure reaches the caller: no error is dropped, replaced by a partial result or turned into success. A result is returned only when every step it depends on succeeded.",
  ["programs", "inputs", "fault_sequences"], "every call that can fail in the evaluation packages",
  "Tests only contain documents that succeed.",
  ["core/*.go", "engine/*.go", "lib/*.go"], [("error returns", "every fallible call")],
  "error-propagation dataflow: every error result must reach a return, per call site", FLOW_NOTE)
P("C10", "Commands exit with failure when they fail",
  "Each command of the command-line tool ends with a non-zero exit status and a message when reading, evaluating, rendering or writing fails, and prints no result in that case. It ends with status zero only when all its steps succeeded.",
  ["inputs", "configurations", "fault_sequences"], "every command and every failing step",
  "No test runs the command-line tool.",
  ["cmd/*.go"], [("error handling in command functions", "cmd")],
  SCEN + " with a failure injected at each fallible step", SCEN_NOTE)
P("C11", "The same input always gives the same output",
  "Output depends only on the documents, the files and responses they read, and the options: neither map iteration order, addresses, the clock nor random numbers can influence an evaluated value or the order of anything in the output, nor decide which of several errors is reported.",
  ["programs", "schedules", "histories"], "every source of nondeterminism reachable from evaluation",
  "Two runs of a test agreeing does not exclude a third that differs.",
  ["core/*.go", "engine/*.go", "lib/*.go"], [("ordered maps; sorted keys", "maps in core, lib, engine")],
  "taint analysis of nondeterminism sources (map ranges, time, random, addresses)", FLOW_NOTE)
P("C12", "Evaluations do not share hidden state",
  "Evaluating a document leaves nothing in the memory of the process that a later or concurrent evaluation by another engine could observe: after start-up no evaluation writes package-level state or data reachable from it, and engines share no mutable data. Options set on one engine do not affect another.",
  ["histories", "schedules"], "every sequence and interleaving of evaluations",
  "Tests evaluate each document once and look only at that document's output.",
  ["core/*.go", "engine/*.go", "lib/*.go"], [("operator tables written only during initialisation", "engine, lib")],
  "effect analysis: writes reachable from evaluation to package-level storage", FLOW_NOTE)
P("C13", "Operators do not modify their arguments",
  "Applying any operator leaves every argument, and every value reachable from it, unchanged; the result is a new value or an argument itself. The only exception is the operator documented to patch its target in place. A value bound to a name therefore reads the same before and after it is used.",
  ["programs", "inputs", "histories"], "every operator on every arrangement of shared values",
  "Tests look at the result of an operator, hardly ever at its arguments afterwards, and not at sharing between results.",
  ["lib/*.go", "engine/apply.go", "core/util.go"], [("fresh containers; cloning before merging", "lib/maps.go, lib/lists.go, core/util.go DeepMerge, lib/k8s.go, lib/patch.go")],
  SCEN + ", recording every write to memory reachable from arguments", SCEN_NOTE)
P("C14", "Checking, rendering and exporting never change values",
  "Validating a value against a schema, verifying types, rendering to text, converting to plain data and serialising a value leave that value exactly as it was. Rendering twice gives the same text.",
  ["programs", "histories"], "every value passed to a checker or a renderer",
  "Tests render each value once.",
  ["core/schema.go", "engine/render.go", "core/util.go", "lib/types.go"], [("read-only traversal", "Validate, VerifyTypes, Render, ToNative")],
  SCEN + ", recording every write to memory reachable from the argument", SCEN_NOTE)
P("C15", "Included and imported documents run in their own scope",
  "An included or imported document is evaluated in a fresh environment: it sees none of the names of the document that loads it and defines none there. An import makes the imported document's top-level names available only under the import name; an include contributes exactly the documents of the files it names, in the order in which its arguments and patterns give them, without evaluating them again and never including the document itself.",
  ["programs"], "every pair of documents",
  "Tests include and import one document each with no colliding names.",
  ["engine/eval.go", "engine/apply.go", "engine/engine.go", "core/env.go"], [("new environment per loaded document", "engine/eval.go import; engine/apply.go include")])
P("C16", "Lambda parameters bind by position in lexical scope",
  "Calling a lambda binds each argument to the parameter at the same position in a fresh scope whose parent is the scope the lambda was created in, checks it against that parameter's declared type, and evaluates the body there; neither the caller's scope nor earlier calls are affected. A wrong number of arguments or an argument that fails its check is an error and the body is not evaluated.",
  ["programs"], "every lambda, call and scope arrangement",
  TESTS + "shadowing, recursion and mismatched calls are barely sampled.",
  ["engine/apply.go", "engine/eval.go", "core/env.go"], [("closure environment", "engine/apply.go Apply; engine/eval.go lambda")])
P("C17", "Only data tagged for evaluation is evaluated",
  "Values in a document are left as plain data unless they are marked for evaluation by the evaluation tag on themselves or an enclosing value; the quote tag turns evaluation off again for its subtree. Text in untagged data is never treated as code, whatever it looks like, and loaded documents start out as plain data.",
  ["programs", "inputs"], "every nesting of tags and every kind of value",
  TESTS + "nesting and quoting are sampled.",
  ["engine/eval.go", "engine/engine.go", "engine/parse.go"], [("evaluation mode switch on tags", "engine/eval.go Eval")])
P("C18", "Special forms evaluate exactly the branch they need",
  "A conditional evaluates its condition once and then exactly one branch, never both; a lambda expression evaluates no part of its body when created; and every ordinary operator has all of its operands evaluated exactly once, from left to right, before it is applied.",
  ["programs"], "every expression",
  TESTS + "evaluation counts and order are not visible in them.",
  ["engine/eval.go"], [("special forms before operand evaluation", "engine/eval.go Eval")],
  SCEN + ", counting and ordering evaluation events", SCEN_NOTE)
P("C19", "One truthiness rule governs all conditionals",
  "Null, false, zero, the empty string, the empty list and the empty map are false and everything else is true, and conditionals, the logical operators and filters all follow this rule. 'and', 'or' and 'not' return the boolean the rule gives; the default operator returns its first operand that is not null.",
  ["inputs"], "every value of every kind in every conditional",
  TESTS + "a few booleans are sampled.",
  ["core/util.go", "engine/apply.go", "engine/eval.go", "lib/lists.go"], [("shared truth function", "core/util.go IsTruthy")])
P("C20", "Comparison operators implement the orderings they name",
  "On numbers, integer or floating point, '<', '<=', '>', '>=', '==' and '!=' and their word forms return exactly the boolean their name denotes; '==' and '!=' also decide strings, booleans and null by value, and values of different types are never equal. Operands outside an operator's domain and a wrong number of operands give an error.",
  ["inputs"], "every pair of operands in every ordering",
  TESTS + "one or two pairs per operator are sampled.",
  ["engine/apply.go", "core/util.go"], [("comparison operators", "engine/apply.go"), ("equality", "core/util.go, engine/util.go")])
P("C21", "Output is type-checked before it is emitted",
  "Unless type checking was disabled or untyped manifests were allowed, every way of obtaining an evaluated document verifies all type annotations in it, at every depth, before anything is returned, and a violation makes the call fail with no output. A value inferred or declared to have a type is checked against exactly that type.",
  ["programs", "configurations"], "every entry point and every document",
  TESTS + "failures of type checks are not tested.",
  ["engine/engine.go", "engine/render.go", "core/util.go"], [("verification before rendering", "engine/engine.go")])
P("C22", "Schema constraints accept exactly the values they describe",
  "Each supported schema constraint accepts a value exactly when the value satisfies it: type, numeric minimum and maximum with their exclusive forms, multiples, string lengths in characters, required and additional properties, and alternatives (at least one accepts). A constraint is applied to every nested property and list item. A violated constraint at any depth makes the check fail.",
  ["inputs"], "every value and every constraint",
  TESTS + "one manifest per kind is validated.",
  ["core/schema.go"], [("constraint checks", "core/schema.go Validate")])
P("C23", "Every documented operator and alias is available",
  "Each operator in the reference documentation can be called under its documented name, and the symbolic and the word form of an operator behave identically. Unknown operator names give an error.",
  ["programs"], "every documented operator name",
  TESTS + "several operators and most word forms are never called.",
  ["engine/apply.go", "lib/*.go", "docs/operators/*.md"], [("operator tables", "engine/apply.go; lib init functions")])
P("C24", "Relative paths resolve against the file that contains them",
  "A relative path written in an include, import, file read or glob is resolved against the directory (or URL) of the document in which it is written, not the process's working directory or the document that loaded it. Absolute paths and URLs in includes and imports are used as they are.",
  ["programs", "configurations"], "every location of the referring and the referred document",
  "Tests use one directory.",
  ["engine/util.go", "engine/engine.go", "engine/apply.go", "lib/files.go"], [("path resolution from the value's source file", "engine/util.go; lib/files.go")])
P("C25", "Command-line flags have exactly their documented effect",
  "Each option of the build command changes what it is documented to change and nothing else: allowing commands, showing traces, rendering special objects, source-map comments, untyped manifests, output format and disabled type checks reach the evaluator as given and default to off (YAML for the output format). Unknown output formats are rejected.",
  ["configurations"], "every combination of options",
  "No test runs the command-line tool.",
  ["cmd/build.go", "engine/engine.go"], [("options passed to the engine", "cmd/build.go")])
P("C26", "Scalars keep their type and value",
  "A null, boolean, integer, float or text that is only passed through, read from YAML and evaluated or quoted, keeps its kind, value, tag and source position: texts that look like numbers, booleans or null stay texts, integers keep their value in every notation or are refused when they do not fit in 64 bits, and floats keep their exact value. Rendering writes each of them, in whatever style and place, so that reading the output back yields the same kind and value.",
  ["inputs"], "every scalar in every notation, style and place",
  TESTS + "a few scalars are sampled.",
  ["engine/parse.go", "engine/eval.go", "engine/render.go", "internal/yaml/decode.go", "internal/yaml/resolve.go", "internal/yaml/encode.go", "internal/yaml/emitterc.go"],
  [("scalar parsing", "engine/parse.go"), ("rendering", "engine/render.go"), ("resolution of notations", "internal/yaml/resolve.go"), ("choice of styles and output of characters", "internal/yaml/emitterc.go")],
  SCEN + "; tables of notations and of character classes judged by independent readers of the YAML core schema and of YAML scalars",
  SCEN_NOTE + " Texts are symbolic through parsing, evaluation and rendering; the notations and the characters are tables of classes (all pairs of 19 character classes, all sequences of up to four letters, blanks, tabs and breaks), so characters of one class are taken to behave alike. The tokenizer of the YAML package, comments, map keys and dates (which become texts) are not claimed; U+2028 is tested in double quotes only, because versions of YAML differ about it.")
P("C27", "JSON patch operations follow RFC 6902",
  "Add, remove, replace, move, copy and test change or inspect exactly the location their pointer names, with insertion before an index, '-' for the end, and '~0' and '~1' for escaped characters; everything else stays as it was. Pointers to missing locations, bad indices and failed tests give an error.",
  ["inputs"], "every patch, pointer and target shape",
  TESTS + "one patch batch is sampled.",
  ["lib/patch.go", "lib/maps.go"], [("patch operations", "lib/patch.go")])
P("C28", "Kubernetes patches apply only to the resource they identify",
  "A Kubernetes patch is merged, as the type of the resource prescribes, into exactly those resources whose apiVersion, kind, namespace and name all equal the patch's own; every other resource passes through unchanged, in its original position, and none is lost or duplicated.",
  ["inputs"], "every list of resources and patches",
  TESTS + "one patch and a few resources are sampled.",
  ["lib/k8s.go"], [("identity comparison", "lib/k8s.go")])
P("C29", "Malformed YAML yields an error, never a crash",
  "Decoding or parsing any byte sequence and encoding any value returns an error for what cannot be handled: a failure detected anywhere inside is never lost, and never reaches the caller as a panic. Nesting without bound and values that contain themselves are errors too.",
  ["inputs"], "every byte sequence",
  "Tests contain a fixed set of malformed documents.",
  ["internal/yaml/*.go", "engine/engine.go"], [("recovery at the API boundary", "internal/yaml/yaml.go handleErr")],
  "panic-escape analysis over the call graph of the YAML package; path analysis of every fallible parser and emitter step", FLOW_NOTE + " Run-time panics inside the YAML package (indexing, nil) are not decided.")
P("C30", "A cached schema is either complete or absent",
  "A schema cache entry becomes visible under its final name only after its complete content has been written successfully; if writing fails or the process dies midway, the entry stays as it was. Nothing is cached that did not parse as a schema of the expected form or whose download failed.",
  ["crash_points", "fault_sequences"], "a crash or failure between any two steps of storing a schema",
  "Tests never write the cache.",
  ["core/schema.go", "cmd/cachekubeschemas.go"], [("write to a temporary file, then rename", "core/schema.go; cmd/cachekubeschemas.go")],
  "typestate analysis of write, close and rename over all paths", FLOW_NOTE)
P("C31", "A name refers to its nearest definition",
  "A symbol evaluates to the definition in the innermost enclosing scope that has one; dotted symbols select members of that value. An undefined name or member is an error, unless the symbol is marked optional, when it is null. An anchor defines its name for the whole document; the parameters of a function shadow it only inside that function's body.",
  ["programs"], "every arrangement of scopes and dotted names",
  TESTS + "shadowing is barely sampled.",
  ["core/env.go", "engine/eval.go"], [("scope chain lookup", "core/env.go Get")])
P("C32", "Evaluation preserves structure and order",
  "Evaluating data keeps list elements and map entries in their written order, complete and without duplication, at every depth; documents of a stream appear in the output in order, with null results dropped and document lists spliced in place. A merge key inserts the merged entries at its position, and of several entries for one key the later one counts.",
  ["programs", "inputs"], "every list, map and document stream",
  TESTS + "orders are sampled.",
  ["engine/eval.go", "engine/engine.go", "engine/parse.go", "engine/render.go", "core/util.go"], [("ordered maps and sequential evaluation", "engine")])
P("C33", "Deep merge keeps the base and applies the overlay",
  "Merging two maps keeps every entry of the base that the overlay does not name, in order, takes the overlay's value for entries it names and merges recursively where both are maps; list values are replaced, or merged item by item on the merge key where the type used for the merge declares one. The operands themselves are unchanged.",
  ["inputs"], "every pair of maps and merge strategy",
  TESTS + "two merges are sampled.",
  ["core/util.go", "lib/maps.go"], [("deep merge", "core/util.go DeepMerge")])
P("C34", "Map, filter and reduce apply the function once per element",
  "The list operators that take a function call it exactly once for each element, in order, on that element itself, and build their result from the outcomes in order: map keeps every outcome, filter keeps exactly the elements whose outcome is true, reduce feeds each outcome into the next call. The first failing call makes the operator fail.",
  ["programs", "inputs"], "every list and function",
  TESTS + "short lists are sampled.",
  ["lib/lists.go"], [("higher-order operators", "lib/lists.go")],
  SCEN + ", counting and ordering call events", SCEN_NOTE)
P("C35", "List operators return the elements they are documented to",
  "Each list operator returns exactly the documented elements in the documented order: first, rest, prepend, membership, flattening, length, index sequence and element access, with positions outside the list answered by an error. Missing operands and operands of another kind give an error.",
  ["inputs"], "every list and index",
  TESTS + "one list per operator is sampled.",
  ["lib/lists.go"], [("list operators", "lib/lists.go")])
P("C36", "Map operators are exact inverses and projections",
  "Keys, values and entries of a map come in the map's order and agree with each other; building a map from entries restores it. Get returns the entry of that key, and an absent key is an error; merging gives later maps precedence.",
  ["inputs"], "every map and key",
  TESTS + "one map per operator is sampled.",
  ["lib/maps.go"], [("map operators", "lib/maps.go")])
P("C37", "Arithmetic operators compute the documented value",
  "Sum, difference, product and quotient combine all integer operands from left to right by the operation they name, with an integer result. Division by zero and any operand that is not an integer give an error.",
  ["inputs"], "every list of numbers",
  TESTS + "a few integers are sampled.",
  ["engine/apply.go"], [("arithmetic operators", "engine/apply.go")])
P("C38", "Types fill in only what is missing",
  "Casting a value to a type keeps every member the value has, unchanged, and adds a member only when the type requires or defaults it and the value lacks it, using exactly the declared default. A value that cannot be completed is an error.",
  ["inputs"], "every value and schema",
  TESTS + "one cast is sampled.",
  ["core/schema.go"], [("cast", "core/schema.go Cast")])
P("C39", "String operators compute the documented text",
  "Concatenating, joining, splitting, replacing, changing case, trimming, hashing, formatting and quoting give exactly the text (or list of texts) they are documented to give for every text, and the containment test its truth; quoting gives a notation that reads back as the value. A number of operands the operator is not documented to take, and an operand that is not a text where one is required, give an error.",
  ["inputs"], "every text, list of texts, format and scalar operand",
  TESTS + "one ordinary word per operator is sampled.",
  ["lib/strings.go"], [("string operators", "lib/strings.go")])
P("C40", "Plain data is taken over whole",
  "Reading JSON and plain YAML, from files or from a text, and turning values back into plain data keeps every document, list element and map member at its place, with its kind and exact value. Data that has no counterpart, malformed data anywhere in the input, and data behind a JSON value give an error instead of a part of the input.",
  ["inputs"], "every document stream and plain value",
  TESTS + "small well-formed single documents are sampled.",
  ["core/parse.go", "core/types.go", "lib/yaml.go"], [("plain data", "core/parse.go ParseAny, ParseJson, ParseYaml; core/types.go ToNative; lib/yaml.go")])
P("C41", "The pipeline function hands the script exactly the items it was given",
  "Run as a pipeline function, the document sees as its items every given item, whatever its shape, once, unchanged and in order, except those of the exact version the function's own configurations have; items handed on become documents of their own. The inline script is evaluated if there is one, else the given target (by default the working directory), and untyped manifests are allowed exactly when the configuration says so.",
  ["inputs"], "every item list and function configuration",
  TESTS + "no test runs the pipeline function.",
  ["cmd/krm.go"], [("items, script and target", "cmd/krm.go")])
P("C42", "Type and text operators say what the value is",
  "Asking a value for its kind gives the documented name of that kind, asking for its type gives the type attached to it or null, and asserting a type gives the value itself exactly when the type accepts it and an error otherwise. Turning a value into text gives the text that rendering the value gives, and an error if it cannot be rendered; a wrong number of operands or an assertion by something that is no type is an error.",
  ["inputs"], "every value and type",
  TESTS + "a few values per operator are sampled.",
  ["lib/types.go", "lib/yaml.go"], [("type operators", "lib/types.go"), ("text of a value", "lib/yaml.go")])
