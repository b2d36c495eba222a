#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept in one readable place).
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

GEN="generator/templates/"
p("C01","A response is exactly what the definitions say, for any request and reply",
 "For every federation definition the tool accepts, every request, and every set of replies from the dependent services, a successful response holds in every field the value its definition denotes (bindings, autobind, message arguments and inlined arguments, CEL expressions, constructed messages, aliases), and fields with no applicable value are left at their zero value. Neither the completion order of dependent calls nor earlier requests served by the same service change it.",
 ["programs","inputs","schedules"],"all accepted definitions x all requests x all dependency replies x all completion orders",
 "The tests run 19 hand-written definitions with one request each and golden-file comparison of emitted text; combinations of features, other inputs and other completion orders are never executed.",
 ["generator/code_generator.go","generator/templates/eval.go.tmpl","grpc/federation/cel.go","resolver/resolver.go"],
 [("emitted per-message resolver functions",GEN+"eval.go.tmpl"),("definition evaluation and typed setters","grpc/federation/cel.go EvalDef/SetCELValue"),("name/type resolution, autobind","resolver/resolver.go")],
 ["response returned by the generated service's RPC methods"],
 [("per-message variables","value of each definition while one message is resolved","grpc/federation/cel.go LocalValue")])
p("C02","Dependent calls: right request, exactly once, only after what they depend on",
 "Resolving a message issues each of its declared calls exactly once per evaluation (besides declared retries), with a request whose every field equals the declared expression over that message's variables, and a call is issued only after every definition it refers to, directly or indirectly, has completed. A definition whose condition is false, a request field whose condition is false, and everything after a failed dependency contribute no call and no field.",
 ["programs","inputs","schedules"],"all dependency graphs x requests x completion orders",
 "Existing tests stub the dependency with a fixed reply and never look at call count, order or request contents across graph shapes.",
 ["resolver/graph.go","resolver/def.go","generator/templates/eval.go.tmpl","generator/templates/eval.go.tmpl","grpc/federation/cel.go"],
 [("dependency graph and definition groups","resolver/graph.go"),("single-flight evaluation per definition","grpc/federation/cel.go EvalDef")],
 ["the client connection handed to the generated service: method, request, start and end of every call"])
p("C03","Definitions that do not depend on each other run concurrently",
 "While one message is resolved, a dependent call never waits for the completion of another definition it does not (transitively) depend on: all definitions whose dependencies have completed can be in flight at the same time. Consequently a request completes even if every such call only returns once the others have started.",
 ["programs","schedules"],"all dependency graphs without conditions that serialise them",
 "The tests only check results, which are the same when independent calls are serialised; only one example graph is timed by hand.",
 ["resolver/graph.go","resolver/def.go","generator/code_generator.go","generator/templates/eval.go.tmpl"],
 [("definition groups started on an errgroup","generator/templates/eval.go.tmpl"),("group construction from the dependency graph","resolver/graph.go")],
 ["set of calls in flight at the client connection when every started call is held back"])
p("C04","Concurrent requests are isolated from each other and free of data races",
 "Any number of requests served concurrently by one service (and by several methods and message resolvers sharing compiled expressions) each get the response, error, dependent calls, logs attributes and validation outcome they would get when run alone. No execution performs a data race.",
 ["schedules","inputs","histories"],"all interleavings of concurrent requests to one service instance",
 "Tests issue one request at a time; interleavings and the race detector are not part of them.",
 ["grpc/federation/cel.go","grpc/federation/context.go","grpc/federation/cel/log.go","grpc/federation/cel/context.go","generator/templates/server.go.tmpl"],
 [("service-wide compiled expression cache","grpc/federation/cel.go CELCache"),("per-message locked variables","grpc/federation/cel.go LocalValue"),("per-request logger and attributes","grpc/federation/context.go")],
 ["Go race detector reports","per-request tags carried through request, calls, response and log records"])
p("C05","A failed call yields the error, reply or fallback its error handling declares",
 "When a dependent call fails, the first error-handling block whose condition holds decides the outcome: the declared code, message and details in declared order (or the original status when none is declared), or success with an empty or the declared substitute value when the block ignores the error. When no block matches, the request fails with the original code, message and details, after the optional error handler of the service had its say.",
 ["inputs","fault_sequences","programs"],"all error block lists x error statuses with and without details",
 "Golden files pin the emitted text and two examples provoke one error each; combinations of conditions, details, codes and failing calls are not executed.",
 ["generator/templates/error_handler.go.tmpl","generator/templates/error_handler.go.tmpl","generator/templates/eval.go.tmpl","grpc/federation/error.go","grpc/federation/cel.go","resolver/resolver.go"],
 [("emitted error handler per call","generator/templates"),("status assembly","grpc/federation/error.go, grpc/federation/cel.go")],
 ["status code, message and details returned by the RPC","substitute value in the response"])
p("C06","Error handling of one call never observes another call's error",
 "Within one request, every condition, message, detail and retry rule evaluated for a failed call sees the code, message and details of the error of that very call, however many other calls of the same message fail at the same time or retry meanwhile.",
 ["schedules","fault_sequences"],"all interleavings of failing calls of one message",
 "The tests never fail two calls of a message at once.",
 ["grpc/federation/cel.go","generator/templates/eval.go.tmpl"],
 [("error variable exposed to expressions","grpc/federation/cel.go SetGRPCError")],
 ["status returned by the RPC for calls whose failures carry unique ids"],
 [("`error` variable","error of the call whose handling is being evaluated","grpc/federation/cel.go")])
p("C07","Retry policies bound and drive repeated calls exactly as declared",
 "A call with a retry policy is attempted until it succeeds, its retry condition evaluates to false for the latest error, or the declared number of retries (five by default) is used up, and never more often; the last error is the one that is handled. Calls without a policy are attempted once, all attempts carry the same request, and once the request is cancelled or its deadline passes no further attempt starts and the wait between attempts ends promptly.",
 ["fault_sequences","configurations","schedules"],"all sequences of failures and successes x retry policies x cancellation points",
 "One example retries a fixed number of times; failure sequences, conditions and cancellation during the wait are not exercised.",
 ["grpc/federation/error.go","grpc/federation/lib.go","grpc/federation/cel.go","generator/templates/eval.go.tmpl","resolver/resolver.go"],
 [("retry loop","grpc/federation WithRetry"),("backoff built from the policy","generator/templates/eval.go.tmpl")],
 ["attempts seen by the client connection and the final status"])
p("C08","Declared timeouts and cancellations bound calls and methods, and leak nothing",
 "A method or call with a declared timeout that exceeds it fails with DEADLINE_EXCEEDED, the dependent call's context is cancelled or carries a deadline no later than the tightest enclosing one, and a reply within the limit is never affected. When the caller cancels, the method returns without waiting for stuck dependencies that honour the context, and after every request, however it ended, no goroutine it started remains.",
 ["schedules","fault_sequences","programs"],"all points at which a dependency stalls or the caller cancels",
 "One example covers one timeout; stalls and cancellations at other points and goroutine accounting under faults are not covered.",
 ["grpc/federation/lib.go","grpc/federation/error.go","generator/templates/server.go.tmpl","generator/templates/eval.go.tmpl"],
 [("WithTimeout goroutine and buffered channel","grpc/federation/error.go"),("context.WithTimeout around calls",GEN+"eval.go.tmpl")],
 ["context deadline and cancellation seen by the client connection","status of the RPC","goroutines left after the request"])
p("C09","Validations gate: a failed rule fails the request with the declared status",
 "A request succeeds only if every validation reached in its resolution held; when one fails, the request fails with the declared code, message and declared details, whose conditions and nested definitions are evaluated over the variables of that message. When all hold, the validation has no effect on the response, and a validation whose own condition is false is not evaluated.",
 ["inputs","programs"],"all validation rules x variable values",
 "Golden files and one example; combinations of conditions and details are not executed.",
 ["grpc/federation/validation.go","grpc/federation/cel.go","generator/templates/validation.go.tmpl","generator/templates/error_handler.go.tmpl","resolver/resolver.go"],
 [("validation expression as a definition","generator/templates"),("detail assembly","grpc/federation/cel.go, validation.go")],
 ["status code, message and details returned by the RPC"])
p("C10","A panic while serving a request is contained to that request",
 "If a dependent client, a custom resolver, an error handler or an expression panics at any point of a request, that request (and no other) fails with an error status, the process survives, and the service answers later requests normally and leaks no goroutine.",
 ["fault_sequences","schedules","programs"],"every call position and every schedule at which a panic can be raised",
 "No test panics inside concurrently evaluated definitions, timeouts, retries or resolvers.",
 ["grpc/federation/error.go","grpc/federation/lib.go","grpc/federation/cel.go","generator/templates/server.go.tmpl"],
 [("recover around methods, goroutines and timeouts","grpc/federation/error.go RecoverError")],
 ["status of the RPC","liveness of the process and later responses"])
p("C11","Aliased, numeric, enum and oneof conversions preserve the value or fail",
 "Whenever a value is converted to a declared type (integer widths and signs, enums through their alias tables and defaults, aliased messages, oneof members, repeated and map elements, wrappers), the result denotes the same value, and a value the target cannot represent is reported as an error rather than silently altered. A unset (null) message stays unset, and an enum value with no alias becomes the declared default.",
 ["inputs","programs"],"all source values x all pairs of types the tool accepts",
 "The tests convert a few in-range values; boundary values and unknown enum numbers are not covered.",
 ["grpc/federation/cast.go","grpc/federation/alias.go","grpc/federation/cel.go","generator/templates/cast.go.tmpl","resolver/type_conversion.go"],
 [("emitted cast functions","generator/code_generator.go"),("checked integer casts","grpc/federation/cast.go")],
 ["field values of responses and of requests sent to dependencies"])
p("C12","Mapped lists keep order and length and evaluate each element on its own",
 "A map definition yields a list with exactly one element per element of its source list, in source order, each computed from that element alone; an empty or unset source yields an empty list. If evaluating one element fails the definition fails, and no element is dropped, repeated or computed from another one, whatever the elements' dependent calls do.",
 ["inputs","schedules","fault_sequences"],"all source lists x per-element replies and failures",
 "One example maps a fixed two-element list.",
 ["grpc/federation/cel.go","generator/templates/eval.go.tmpl"],
 [("EvalDefMap","grpc/federation/cel.go"),("iterator variable scope","grpc/federation/cel.go MapIteratorValue")],
 ["list fields of the response and per-element dependent calls"])
p("C13","Custom resolvers get the declared arguments and their results are used verbatim",
 "Every message or field declared to be resolved by user code is resolved by calling that code once per occurrence, with arguments equal to the message arguments and variables in scope (and, for fields, the field's declared inputs), and its result appears unchanged in the response. Its error becomes the request's error with code and details intact, and a nil message result leaves the field unset.",
 ["programs","inputs","schedules"],"all message graphs with custom resolved messages and fields",
 "Two examples with one resolver each; argument contents for other shapes are not examined.",
 ["generator/templates/eval.go.tmpl","generator/code_generator.go","resolver/message.go"],
 [("resolver interface calls","generator/templates/eval.go.tmpl")],
 ["arguments received by the user-supplied resolver and fields of the response"])
p("C14","Environment and service variables are decoded, defaulted, validated and shared",
 "A service starts exactly when every required environment variable is present and every variable parses to its declared type, otherwise construction fails with an error; each variable is then visible to every request with its decoded value, alternate or default. Service variables are computed once, in dependency order, honour their conditions, and a failing service-level validation makes construction fail with its message.",
 ["configurations","inputs"],"all environments x declared variables, conditions and validations",
 "One golden file and one example with a fixed environment.",
 ["generator/templates/server.go.tmpl","resolver/resolver.go","resolver/service.go","grpc/federation/cel.go"],
 [("envconfig tags","generator/code_generator.go"),("service variable evaluation at construction","grpc/federation/cel.go EvalDef")],
 ["result of the service constructor and response fields computed from variables"])
p("C15","Conditional and oneof branches: only the selected branch is evaluated and set",
 "A definition whose condition is false yields its type's null or zero value and triggers none of its calls; for a oneof exactly the first member whose condition holds (otherwise the default member) is set, and only that member's own definitions are evaluated. Conditions see the same variables as the branch they guard.",
 ["inputs","programs"],"all truth assignments of conditions",
 "Examples drive one branch of each condition.",
 ["generator/templates/eval.go.tmpl","grpc/federation/cel.go","resolver/oneof.go"],
 [("condition evaluation before a definition","grpc/federation/cel.go EvalDef"),("oneof binding switch","generator/templates/eval.go.tmpl")],
 ["response oneof member and calls seen by the client connection"])
p("C16","Standard-library expression functions agree with their documented meaning",
 "Every string, URL, time, math, UUID, random, metadata and logging function available to expressions returns what its documentation says for all arguments (the result of the corresponding Go standard-library operation), including empty strings, non-ASCII text, extreme numbers and time zones. An argument outside the domain gives an evaluation error. (Results too large for memory are not considered.)",
 ["inputs"],"all argument values of each documented function",
 "The tests use one or two ordinary arguments per function.",
 ["grpc/federation/cel/strings.go","grpc/federation/cel/url.go","grpc/federation/cel/time.go","grpc/federation/cel/math.go","grpc/federation/cel/uuid.go","grpc/federation/cel/rand.go","grpc/federation/cel/metadata.go","docs/cel"],
 [("function bindings","grpc/federation/cel/bind.go")],
 ["value or error of evaluating an expression with the library installed"])
p("C17","Evaluating any accepted expression yields a value or an error, never a crash",
 "For every expression that passes checking and every input value, evaluation terminates with a value of the checked type or an evaluation error; it never panics out of the evaluator, corrupts other evaluations or depends on which goroutine compiled it first. (Results too large for memory are not considered.)",
 ["inputs","schedules"],"all accepted expressions x values, including hostile ones",
 "Only ordinary arguments are sampled.",
 ["grpc/federation/cel","grpc/federation/cel.go"],
 [("library function bindings","grpc/federation/cel"),("expression evaluation and caching","grpc/federation/cel.go")],
 ["panics escaping evaluation, status of requests"])
p("C18","List functions: sort, reduce, first and flatten are exact and pure",
 "The list macros return what they document for every list: sorted results are permutations of the input ordered by the key, stable variants keep equal elements in input order, reduce folds left to right, first returns the first match or none, and flatten removes one level. The input list is never modified.",
 ["inputs"],"all lists of comparable elements, including empty, duplicated and nested ones",
 "A few fixed lists are tested.",
 ["grpc/federation/cel/list.go"],
 [("list macros and helpers","grpc/federation/cel/list.go")],
 ["evaluation results"])
p("C19","A CEL plugin call returns exactly what the plugin computed for those arguments",
 "Every argument of a plugin function reaches the WebAssembly code unchanged and every result or error comes back unchanged, for all scalar, list, enum, duration, timestamp and message types of the declared signature, with the metadata of the calling request. Concurrent requests never see each other's arguments, results or metadata, and memory reclamation between requests does not disturb calls in flight.",
 ["inputs","schedules","histories"],"all argument values x concurrent histories of calls and collections",
 "One example calls a plugin with one argument from one goroutine.",
 ["grpc/federation/cel/plugin.go","grpc/federation/cel_plugin.go","generator/templates/plugin.go.tmpl"],
 [("request/response protocol over pipes","grpc/federation/cel/plugin.go"),("encoding of values","grpc/federation/cel_plugin.go")],
 ["values echoed by a plugin built with the generated plugin code"])
p("C20","A plugin is loaded only if it is the declared binary, and closes cleanly",
 "A plugin whose content hash differs from the configured one, that is not a plugin, lacks a declared function or reports another version is refused with an error at construction. After the service is cleaned up, once or repeatedly and while requests may still be running, later use gives an error or result but never a crash, and nothing the plugin started keeps running.",
 ["configurations","histories"],"all binaries and configurations x orders of use, collection and close",
 "Not tested beyond loading a good plugin.",
 ["grpc/federation/cel/plugin.go","grpc/federation/cel_plugin.go"],
 [("hash check and instance lifecycle","grpc/federation/cel/plugin.go")],
 ["error of plugin loading, liveness of the process, goroutines left"])
p("C21","Generation is deterministic",
 "For a given set of proto files and options the generated files are byte-identical on every run and on every machine, independent of the order in which unrelated work happens.",
 ["programs","schedules"],"all accepted inputs x repeated runs (map iteration orders)",
 "Golden tests run once per input, and their inputs avoid ties (same short names, shared response messages).",
 ["resolver/resolver.go","resolver/graph.go","generator/code_generator.go","generator/generator.go"],
 [("sorting of collections before emission","resolver, generator")],
 ["bytes of generated files over repeated in-process and cross-process runs"])
p("C22","Accepted definitions generate Go code that compiles and whose service starts",
 "Whenever the tool accepts a set of proto files and emits code, that code compiles together with the standard protobuf and gRPC output, and a service built from it starts when given its clients and resolver.",
 ["programs"],"all accepted definitions",
 "Only the definitions in testdata and examples are compiled.",
 ["generator/code_generator.go","generator/templates","resolver/resolver.go"],
 [("template emission","generator/templates"),("type checks in the resolver","resolver/resolver.go")],
 ["Go compiler verdict on generated packages and constructor result"])
p("C23","Any proto input gives a result or located diagnostics, never a crash or hang",
 "For every proto file that parses, however wrong its federation options, checking terminates and returns either a resolved model or errors; it never panics, hangs or reports success for a file whose errors it found.",
 ["inputs","programs"],"all parsable files, in particular single mutations of valid ones",
 "The invalid test inputs are a fixed list of anticipated mistakes.",
 ["resolver/resolver.go","validator/validator.go","compiler/compiler.go","resolver/error.go"],
 [("error accumulation","resolver/context.go, resolver/error.go")],
 ["outcome of the public validator for mutated files"])
p("C24","Ill-formed definitions are rejected, with a position at the offending element",
 "Definitions that refer to an unknown or later-undefined variable, message, method or field, bind or pass a value of an incompatible type, omit a required field binding, or use an expression that does not type-check are always rejected. Every reported position lies within the file it names, on the option or element that was wrong.",
 ["programs","inputs"],"all single-fault variations of valid definitions at any nesting depth",
 "Fixed list of invalid inputs, each with one fault in one place.",
 ["resolver/resolver.go","source/location_builder.go","source/file.go","validator/validator.go"],
 [("checks in the resolver","resolver/resolver.go"),("location builder to text position","source/")],
 ["diagnostics returned by the validator"])
p("C25","Cyclic dependencies are rejected",
 "A definition set in which resolving a message would require resolving itself, directly, through other messages, through error handling, oneof branches or map elements, or in which definitions of one message refer to each other in a circle, is rejected before any code is generated; acyclic sets are never rejected for cyclicity.",
 ["programs"],"all reference graphs between messages and definitions",
 "One cyclic input is tested.",
 ["resolver/graph.go","resolver/resolver.go"],
 [("cycle detection on the message graph","resolver/graph.go")],
 ["validator/generator verdict compared with a reachability computation"])
p("C26","Code-generation plugins receive the complete resolved model, each of them",
 "The request handed to a code-generation plugin, after encoding and decoding, describes the same files, services, messages, definitions, expressions, types, error handling and dependency graphs as the resolved model (everything the plugin protocol has a field for; graphs as trees), for every accepted input, and every configured plugin receives the full request and has its files kept.",
 ["programs","configurations"],"all accepted models x plugin lists",
 "Tests cover a few models field by field, and one plugin.",
 ["grpc/federation/generator/encode.go","grpc/federation/generator/decode.go","generator/generator.go","generator/wasm.go"],
 [("encoder/decoder with id references","grpc/federation/generator"),("plugin evaluation","generator/generator.go")],
 ["decoded model inside a plugin compared with the original","files and inputs recorded by plugins"])
p("C27","Incremental regeneration ends in the same files as generating from scratch",
 "After any sequence of edits, creations, deletions and renames of proto files handled by the watching generator, the output directory holds what a fresh run over the final files produces: nothing stale remains and nothing is missing; a step whose files do not compile reports an error and a later repair recovers fully.",
 ["histories"],"all histories of file edits, additions, removals and failures",
 "Tests generate once from a fixed tree.",
 ["generator/generator.go","generator/watcher.go"],
 [("dependency-driven regeneration and build cache","generator/generator.go")],
 ["output tree after each history versus a fresh run"])
p("C28","The language server survives any edit history and answers from current text",
 "For every sequence of opens, edits and queries, including unparsable intermediate texts, positions outside the document and concurrent queries, the server neither crashes nor races, its diagnostics after the last edit equal those of checking the final text from scratch, and definition and completion answers point into existing files.",
 ["histories","schedules","inputs"],"all edit/query histories",
 "Tests ask one query on one unmodified file.",
 ["lsp/server/handler.go","lsp/server/definition.go","lsp/server/completion.go","lsp/server/validator.go","lsp/server/semantic_tokens.go","source/file.go"],
 [("per-document state","lsp/server/handler.go"),("validation on change","lsp/server/validator.go")],
 ["protocol responses and published diagnostics"])
p("C29","Source positions and elements map to each other consistently",
 "For every parsable file and every element of it that can be named, the position reported for the element lies on that element's text, and looking up the element at that position names the same element or one nested in it; lookup at any position of any text never fails otherwise than by saying nothing is there.",
 ["inputs"],"all parsable texts x positions",
 "A few positions in one file are tested.",
 ["source/file.go","source/location.go","source/location_builder.go"],
 [("AST walks for lookup in both directions","source/file.go")],
 ["position to location to position round trips"])
p("C31","Imports resolve to the same file from anywhere and never leak between runs",
 "For any layout of import paths (absolute or relative, nested, or with names that are prefixes of each other), imports and import rules, a file is found and named relative to the first import path that contains it, the text given for it is used even if the file on disk differs, a file that can't be found is an error, and compiling or validating one file with options does not change how later files are compiled or validated.",
 ["configurations","histories"],"all import path layouts x sequences of compilations",
 "Tests use one import path.",
 ["compiler/compiler.go","validator/validator.go","source/file.go"],
 [("import path handling","compiler/compiler.go")],
 ["file names and errors returned by the compiler"])
p("C32","A failing request is logged once, with its level and all attached attributes",
 "A failing request produces exactly one record of its outcome, with the message, code and details of the reply, the level declared by the error block or validation that decided (error if none did), and every log attribute attached before the failure in the message of the failing definition and those around it; a successful request produces none. A record emitted by an expression appears once per evaluation of its definition, at its level, with its arguments and the attributes attached before. Attributes of a request never appear in a record of another request, however many messages and requests are resolved at the same time.",
 ["schedules","inputs","fault_sequences"],"all concurrent histories of succeeding and failing requests",
 "No test inspects log output under concurrency; the error levels are only seen in golden files.",
 ["grpc/federation/error.go","grpc/federation/context.go","grpc/federation/cel/log.go","grpc/federation/log/context.go","generator/templates/error_handler.go.tmpl","generator/templates/server.go.tmpl"],
 [("error with log attributes","grpc/federation/error.go"),("context logger","grpc/federation/cel/log.go")],
 ["records received by the configured logger"])
if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as f:
        for x in P:
            x["anchors"]["files"]=list(dict.fromkeys(x["anchors"]["files"]))
            f.write(json.dumps(x)+"\n")
    print(len(P))
