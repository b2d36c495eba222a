#!/usr/bin/env python3
# Source of /verif/MANIFEST.json.
import json
RT="runtime monitoring of generated services: "
C={
"C01":(RT+"random programs, model oracle over responses","generated programs are type-correct by construction; the model covers the constructs listed in DESIGN.md"),
"C02":(RT+"online checker of issued calls and their order","call/order events of the fake connection, matched with the model"),
"C03":(RT+"hold-back scheduler with progress watchdog","a started call is only released when every call that may run has been issued"),
"C04":("Go race detector + concurrent requests judged against the model of each alone","race detector on the generated service, runtime and CEL libraries"),
"C05":(RT+"fault injection, model oracle over the status returned","at most one failing call per message instance"),
"C07":(RT+"failure sequences injected into retried calls, attempt monitor","constant and exponential policies, retry conditions, attempt counts and cancelled waits"),
"C08":(RT+"stuck calls, timeouts and cancellations; deadline and goroutine-leak monitors","wall-clock bounds are generous: only gross delays are violations"),
"C09":(RT+"model oracle over validation outcomes","rules, details and nested definitions are random"),
"C10":(RT+"panic injection at every call and resolver","a panic that reaches the process ends the driver, which is a violation"),
"C11":(RT+"boundary values, model oracle over conversions","integer widths, enums, aliases, oneofs, lists and maps"),
"C12":(RT+"model oracle over mapped lists","maps by expression, enum and message, with failing elements"),
"C13":(RT+"monitor of user-code calls, arguments and results","message and field resolvers, injected errors"),
"C16":("direct monitoring of expression evaluation: every library function against a Go oracle","435 function entries, hostile operands; results too large for memory are excluded"),
"C17":("random well-typed expressions evaluated alone and concurrently: panic, type, purity and agreement monitors, race detector","results too large for memory are excluded (strings.repeat is not generated)"),
"C18":("direct monitoring of expression evaluation: list macros against a Go model, argument purity","77 families of macro, source and key"),
"C14":("runtime monitoring of generated services: services started under random environments, model oracle over construction and responses","envconfig decoding of all scalar kinds, lists, maps, messages, aliases, defaults, ignored and required fields; service variables with conditions and validations"),
"C22":("generation of random multi-file message graphs, compiled by the Go compiler, started and called; responses against the model","graphs of definitions of ten kinds of edges over several files and packages"),
"C23":("crash and hang monitor over mutated definitions (compiler, validator, resolver, generator run in a watched process)","mutations of tokens, options and elements of the corpus and of generated programs"),
"C25":("monitor of the resolver's verdict on random graphs with and without injected cycles","cycles through every kind of edge; the acyclic original must be accepted"),
"C21":("repeated generation compared byte by byte: other directories, other processes, permuted file orders, unrelated files beside","the corpus of the repository and generated graphs; the machine itself cannot be changed"),
"C24":("monitor of the validator's verdict and positions on definitions made ill-formed at one element","85 kinds of ill-formedness at elements of the corpus and of generated programs; expressions are judged from a service on"),
"C28":("edit and query histories against the language server in processes of their own: diagnostics compared with a check from scratch, answers judged, crash monitor and race detector","the handler is driven in process: the transport is not; semantic tokens are only watched for crashes"),
"C29":("round trip between an independent walk of the syntax tree and the position index","elements of the corpus and of generated programs, files rewritten, positions anywhere"),
"C26":("comparison of decoded with resolved models, and recording plugins run by the generator","field by field over everything the protocol carries; log levels, the env option of fields, names of validations, back links of graphs and oneofs of message types are not carried"),
"C06":(RT+"failing, retrying and error-handling calls in concurrent messages, error of every handling compared with that of its call","calls of different messages and requests; two failing calls of one message only as the known finding"),
"C32":(RT+"monitor of all log records of concurrent failing and succeeding requests against a model, race detector","attributes, levels, messages, codes and details of records; debug records only for foreign attributes"),
"C31":("histories of calls on one compiler and validator over generated layouts of import paths, judged by a model and a fresh compiler","no file is hidden by one of an earlier import path; files below two import paths are not imported by rule"),
"C19":("plugins generated, built to WebAssembly and called by concurrent requests of generated services: every reply, error and metadata compared with what the plugin computes","random signatures of all kinds; map types and wrappers cannot be declared; host processes are built with go1.23 (wazero 1.7.0's compiler assumes the register use of that time)"),
"C20":("binaries offered for loading, and histories of calls, collections and closes on plugin instances and services: verdict, time-limit, panic and goroutine-leak monitors","plugins that end, answer nonsense or lack functions; a plugin that writes before it is asked is outside"),
"C15":(RT+"model oracle over conditions and oneof cases","conditions on definitions, request fields and oneof members"),
}
LEVEL={}
NA={}
import os,re
done=set(C)
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[]
for p in props:
    if p not in C: continue
    t,n=C[p]
    checks.append({"property":p,"quick_cmd":"./check.sh "+p,"thorough_cmd":"env VERIF_TIER=thorough ./check.sh "+p,"technique":t,"level":LEVEL.get(p,"exploration"),"level_note":n})
m={"version":1,"setup_cmd":"./setup.sh",
   "hooks":{"guard":"none","enable":"no hooks: the checks observe generated services and public entry points","source_commits":[]},
   "checks":checks,
   "not_applicable":[{"property":p,"reason":NA.get(p,"no check built yet")} for p in props if p not in C]}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
print(len(checks),"checks")
