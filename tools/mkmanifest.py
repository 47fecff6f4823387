#!/usr/bin/env python3
# writes MANIFEST.json: every property with specs (props CXX) and a harness is claimed
import json,re,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l) for l in open('properties.jsonl')]
have_h=set(re.findall(r'prop=(C\d\d)',' '.join(open(f).readline() for f in glob.glob('harness/*.go'))))
have_s=set()
for f in glob.glob('specs/*.spec'):
    for l in open(f):
        m=re.match(r'\s+props (.*)',l)
        if m: have_s|=set(m.group(1).split())
notes=json.load(open('tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have_h and i in have_s and not notes.get(i,{}).get('na'):
        n=notes.get(i,{})
        checks.append(dict(property=i,quick_cmd='./check.sh '+i,thorough_cmd='VERIF_TIER=thorough ./check.sh '+i,evidence_file='evidence/%s.json'%i,
          technique='contract-based deductive verification of the Go source (govc: SSA symbolic execution, contracts, loop invariants, lemmas by induction; Z3/cvc5 back ends), failing inputs searched on the real code',
          level=n.get('level','proof'),level_note=n.get('note') or notes['default']))
    else:
        na.append(dict(property=i,reason=notes.get(i,{}).get('na') or 'check not built yet'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  hooks=dict(guard='none',enable='no hooks: contracts live in /verif/specs, harnesses are placed by go overlay',source_commits=[]),
  notes='See DESIGN.md. /repo carries only fix: commits, no hooks.')
json.dump(m,open('MANIFEST.json','w'),indent=1)
print(len(checks),'claimed')
