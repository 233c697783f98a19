#!/usr/bin/env python3
"""known_findings.txt: the repairs made in /repo, by commit, and what is known and not repaired."""
import subprocess,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h\t%s'],text=True)
# subject prefix -> property
P=[l.rstrip('\n').split('\t') for l in open(os.path.join(here,'tools','fixes.txt')) if l.strip()]
out=['# fixed: repaired in /repo by the commit named; suppresses nothing',
     '# known: a genuine defect not repaired; keyed by the exact signature of the failure']
miss=[]
for l in log.splitlines():
    h,s=l.split('\t')
    if not s.startswith('fix: '): continue
    m=[p for p,t in P if s[5:].startswith(t)]
    if not m: miss.append(s); continue
    out.append(f'fixed: property={m[0]} {h} {s[5:]}')
k=os.path.join(here,'tools','known.txt')
if os.path.exists(k): out+= [l for l in open(k).read().splitlines() if l.strip()]
open(os.path.join(here,'known_findings.txt'),'w').write('\n'.join(out)+'\n')
for s in miss: print('no property for:',s)
