#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the harness registers."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
main=open(os.path.join(root,'harness/src/main.rs')).read()
built={m.upper() for m in re.findall(r'(?:\b|::)(c\d\d)(?:::check)?\(\)',main)}
NOTE={}
exec(open(os.path.join(root,'tools/notes.py')).read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in built:
        t,n=NOTE[i]
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i}',thorough_cmd=f'./check.sh {i} thorough',
          technique=t,level='exploration',level_note=n))
    else:
        na.append(dict(property=i,reason='the check is not built yet'))
json.dump(dict(version=1,setup_cmd='./check.sh build',checks=checks,not_applicable=na,
  notes='One harness crate (harness/) with a path dependency on /repo; every check is a generated-input search with shrinking. No hooks: everything is reached through the public interface.'),
  open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'claimed',len(na),'not')
