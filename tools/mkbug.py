#!/usr/bin/env python3
"""mkbug.py FILE: FILE is python defining ID, PROP, NEEDS, BREAKS, EDITS=[(path,old,new)], PKG, TEST (Go source), optional RUNFLAGS.
Writes /verif/seeded/ID (patch.diff from a scratch copy, overlay demo)."""
import sys,os,subprocess,json
ns={}
exec(open(sys.argv[1]).read(),ns)
W="/tmp/bugrepo"; S="/verif/seeded/"+ns["ID"]
os.makedirs(S,exist_ok=True)
subprocess.check_call(["git","-C",W,"fetch","-q","/repo","HEAD"]); subprocess.check_call(["git","-C",W,"reset","-q","--hard","FETCH_HEAD"])
for p,o,n in ns["EDITS"]:
    s=open(f"{W}/{p}").read()
    if s.count(o)!=1: sys.exit(f"{p}: {s.count(o)} matches of {o!r}")
    open(f"{W}/{p}","w").write(s.replace(o,n))
open(S+"/patch.diff","w").write(subprocess.check_output(["git","-C",W,"diff"],text=True))
subprocess.check_call(["git","-C",W,"reset","-q","--hard"])
json.dump({"property":ns["PROP"],"needs":ns["NEEDS"],"what_it_breaks":ns["BREAKS"]},open(S+"/meta.json","w"),indent=1)
if "TEST" in ns:
    open(S+"/demo_test.go.txt","w").write(ns["TEST"])
    open(S+"/demo.sh","w").write('''#!/bin/bash
# Overlays a test into %(PKG)s and runs it.
. /opt/vp/env.sh
H="$(cd "$(dirname "$0")" && pwd)"; D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
printf '{"Replace":{"%%s/%(PKG)s/demo_seed_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$H" > "$D/o.json"
go test -overlay "$D/o.json" -count=1 -vet=off %(FLAGS)s -run 'TestDemoSeed' ./%(PKG)s
''' % {"PKG":ns["PKG"],"FLAGS":ns.get("FLAGS","")})
else:
    open(S+"/demo.sh","w").write(ns["DEMO"])
    for k,v in ns.get("FILES",{}).items():
        os.makedirs(os.path.dirname(S+"/"+k),exist_ok=True)
        open(S+"/"+k,"w").write(v)
