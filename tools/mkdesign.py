#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the table of planted bugs and the list of harnesses."""
import glob,json,os,re
root='/verif'
p=root+'/DESIGN.md'; s=open(p).read()
def block(name,body):
    global s
    a,b=f'<!-- {name} -->',f'<!-- /{name} -->'
    body=a+'\n'+body+'\n'+b
    if a in s: s=s[:s.index(a)]+body+s[s.index(b)+len(b):]
    else: s=s.replace(name,body,1)
caught=json.load(open(root+'/tools/caught.json')) if os.path.exists(root+'/tools/caught.json') else {}
rows=['| bug | property | what it breaks | needs | caught by |','|---|---|---|---|---|']
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    i=d.split('/')[-2]; m=json.load(open(d))
    rows.append('| '+' | '.join([i,m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/'),caught.get(i,'')])+' |')
block('SEEDTABLE','\n'.join(rows))
out=['## Appendix: harnesses','','Generated from the harness sources by tools/mkdesign.py.','']
props={json.loads(l)['id']:json.loads(l)['title'] for l in open(root+'/properties.jsonl')}
for c in sorted(glob.glob(root+'/harness/c[0-9]*')):
    i=os.path.basename(c).upper(); out.append(f'**{i} {props[i]}**'); out.append('')
    for f in sorted(glob.glob(c+'/*.go')):
        lines=open(f).read().split('\n'); com=[]; body=None
        for k,l in enumerate(lines):
            if l.startswith('//verif:'): com.append('['+l[8:]+']')
            elif l.startswith('//'): com.append(l[2:].strip())
            else:
                m=re.match(r'func (H_\w+)\(',l)
                if m:
                    t=' '.join(x for x in com if x)
                    t=re.sub(r'^'+m.group(1)+r':?\s*','',t)
                    e=k+1
                    while e<len(lines) and lines[e]!='}': e+=1
                    bs=re.findall(r'sym\.Bound\((\w+), (\w+)\)','\n'.join(lines[k:e]))
                    if bs: t+=' (bounds Q/T: '+', '.join(f'{a}/{b}' for a,b in bs)+')'
                    out.append(f'- `{m.group(1)}` {t}')
                com=[]
    out.append('')
block('HARNESSES','\n'.join(out))
open(p,'w').write(s)
