#!/usr/bin/env python3
"""The cameras and matrices the library knows, as of when this is run: harness/data/cams.txt"""
import re,sys
S='/repo/src/'
ids={}
vend={}
cur=None
txt=re.sub(r'//.*','',open(S+'camera_ids.rs').read())
for l in txt.splitlines():
    m=re.match(r'pub mod (\w+)',l.strip())
    if m: cur=m.group(1)
    m=re.search(r'pub const (\w+): u16 = (\d+|0x[0-9a-fA-F]+|\w+);',l)
    if m:
        if cur=='vendor': vend[m.group(1)]=int(m.group(2),0)
        else: ids[(cur,m.group(1))]=int(m.group(2),0) if m.group(2)[0].isdigit() else ids[(cur,m.group(2))]
MAC={'fuji':('FUJIFILM','fujifilm')}
def tid(t):
    t=t.strip()
    m=re.match(r'(\w+)!\(\s*(\w+)\s*\)',t)
    if m:
        v,mod=MAC.get(m.group(1),(m.group(1).upper(),m.group(1)))
        return vend[v],ids[(mod,m.group(2))]
    m=re.match(r'TypeId\(\s*(?:camera_ids::)?vendor::(\w+)\s*,\s*(?:camera_ids::)?(\w+)::(\w+)',t)
    return vend[m.group(1)],ids[(m.group(2),m.group(3))]
out=[]
def blocks(f):
    t=open(S+f).read()
    t=re.sub(r'//[^\n]*','',t); t=re.sub(r'/\*.*?\*/','',t,flags=re.S)
    for m in re.finditer(r'static ref (\w+):[^=]*= (?:HashMap::from\()?\[',t):
        d=1;i=m.end()
        while d:
            d+= {'[':1,']':-1}.get(t[i],0); i+=1
        yield m.group(1),t[m.end():i-1]
for f in ['canon','dng','epson','fujifilm','minolta','nikon','olympus','panasonic','pentax','sony']:
    fs=[f+'.rs']
    import os
    if os.path.exists(S+f+'/matrices.rs'): fs.append(f+'/matrices.rs')
    for x in fs:
        for name,b in blocks(x):
            n=0
            if name=='MATRICES':
                for m in re.finditer(r'BuiltinMatrix::new\(\s*(\w+!\(\s*\w+\s*\)|TypeId\([^)]*\)),\s*(\w+)\s*,\s*(\w+)\s*,\s*\[([^\]]*)\]',b):
                    v,i=tid(m.group(1)); mm=[int(k) for k in m.group(4).replace('\n',' ').split(',') if k.strip()]
                    assert len(mm)==9
                    out.append(('matrix',f,'',v,i,int(m.group(2),0),int(m.group(3),0),','.join(map(str,mm)))); n+=1
                assert n==b.count('BuiltinMatrix::new'),(x,n)
            elif name.endswith('ID_MAP'):
                for m in re.finditer(r'(\w+)!\(\s*("[^"]*"|0x[0-9a-fA-F_]+|\d+)\s*,\s*(\w+)\s*\)|\(\s*("[^"]*"|0x[0-9a-fA-F_]+|\d+)\s*,\s*(TypeId\([^)]*\)|\w+!\(\s*\w+\s*\))',b):
                    if m.group(1):
                        k=m.group(2); v,i=tid(f'{m.group(1)}!({m.group(3)})')
                    else:
                        k=m.group(4); v,i=tid(m.group(5))
                    kind='model' if k[0]=='"' else 'modelid'
                    k=k[1:-1] if k[0]=='"' else int(k.replace('_',''),0)
                    out.append((kind,f,k,v,i)); n+=1
                print(x,name,n,b.count('\n'),file=sys.stderr)
with open('/verif/harness/data/cams.txt','w') as o:
    for r in out: o.write('\t'.join(map(str,r))+'\n')
import collections
seen=collections.Counter((r[1],r[3],r[4]) for r in out if r[0]=='matrix')
print('dup matrices',[k for k,v in seen.items() if v>1],file=sys.stderr)
seen=collections.defaultdict(set)
for r in out:
    if r[0]!='matrix': seen[(r[0],r[1],r[2])].add(r[3:])
print('dup keys',[k for k,v in seen.items() if len(v)>1],file=sys.stderr)
