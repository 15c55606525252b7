#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and this list
import json,os,re
V='/verif'
CAUGHT={}
for l in open(V+'/sim/planted.txt'):
    m=re.match(r'(\S+) (caught|missed)(?: (.*))?$',l.strip())
    if m: CAUGHT[m[1]]=(m[2],m[3] or '')
s=open(V+'/DESIGN.md').read()
a='<!-- planted -->\n'
head=s.split(a)[0]
t='| planted bug | what it needs | result |\n| --- | --- | --- |\n'
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    c=CAUGHT.get(d,('not measured',''))
    t+=f"| {d} | {m['needs']} | {c[0]} by {m['property']}{'; '+c[1] if c[1] else ''} |\n" if c[0]=='caught' else f"| {d} | {m['needs']} | {c[0]}{'; '+c[1] if c[1] else ''} |\n"
open(V+'/DESIGN.md','w').write(head+a+t)
