import re,sys,glob
req={}
def ver(v): return [int(x) if x.isdigit() else x for x in re.split(r'[.\-+]',v.lstrip('v'))]
for f in ["/repo/_examples/02_simple/go.mod","/repo/go.mod"]:
    inreq=False
    for l in open(f):
        l=l.strip()
        if l.startswith('require ('): inreq=True; continue
        if l==')': inreq=False
        if inreq:
            p=l.split('//')[0].split()
            if len(p)==2 and not p[0].startswith('github.com/mercari'):
                req[p[0]]=p[1]
name=sys.argv[1]
print(f"module {name}\n\ngo 1.23.7\n\nreplace github.com/mercari/grpc-federation => /repo\n\nrequire (\n\tgithub.com/mercari/grpc-federation v0.0.0-00010101000000-000000000000")
for k in sorted(req): print(f"\t{k} {req[k]}")
print(")")
