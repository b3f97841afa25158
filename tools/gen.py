"""Generates properties.jsonl and MANIFEST.json from tools/props.py"""
import json,subprocess
ns={}
exec(open('/verif/tools/props.py').read(),ns)
with open('/verif/properties.jsonl','w') as f:
    for p in ns['PROPS']:
        d=dict(id=p['id'],title=p['title'],statement=p['statement'],
          quantifier=dict(over=p['over'],text=p['quant']),why_tests_cant=p['why'],
          anchors=dict(files=p['files'],mechanism=[dict(name=a,where=b) for a,b in p['mech']],observe_at=p.get('observe',[]),hook_needed=None))
        assert len(d['title'])<=80,d['title']
        f.write(json.dumps(d)+'\n')
checks=[];na=[]
for p in ns['PROPS']:
    if p.get('na'): na.append(dict(property=p['id'],reason=p['na'])); continue
    checks.append(dict(property=p['id'],quick_cmd=f"./check.sh {p['id']} quick",thorough_cmd=f"./check.sh {p['id']} thorough",
      technique='contract-based deductive verification (govc: contracts on the Go SSA of /repo, discharged by z3/cvc5)'+p.get('tech',''),
      level='proof',level_note=p['note']))
m=dict(version=1,setup_cmd='./setup.sh',hooks=dict(guard='none',enable='no hooks are needed: contracts live in /verif/specs and are keyed by function; harnesses enter through go test -overlay',source_commits=[]),
  checks=checks,not_applicable=na,notes=ns['NOTES'])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not applicable')
