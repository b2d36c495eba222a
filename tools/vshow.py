#!/usr/bin/env python3
# show the shortest violations of a replay file grouped by the first words of their message
import re,sys
t=open(sys.argv[1],errors='replace').read()
n=int(sys.argv[2]) if len(sys.argv)>2 else 3
pat=sys.argv[3] if len(sys.argv)>3 else None
b=re.split(r'(?m)^(?=program \d+ request)',t)[1:]
g={}
for x in b:
    if pat and not re.search(pat,x.split('trace:')[0]): continue
    m=re.search(r'(?m)^\[(\w+)\] (.*)$',x)
    k=(m.group(1), re.sub(r'[0-9].*','',m.group(2))[:60]) if m else None
    if k not in g or len(x)<len(g[k]): g[k]=x
for k,x in list(g.items())[:n]:
    print('=====',k); print(x[:int(sys.argv[4]) if len(sys.argv)>4 else 9000])
