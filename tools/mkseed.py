"""mkseed.py FILE: each seed is a dict in FILE's SEEDS list; writes /verif/seeded/<id>/"""
import sys,os,subprocess,json,shutil,tempfile
ns={}
exec(open(sys.argv[1]).read(),ns)
only=set(sys.argv[2:])
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']
    w=tempfile.mkdtemp(prefix='/tmp/mkseed')
    subprocess.check_call(['git','-C','/repo','worktree','prune'])
    subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
    for f,old,new in s['edits']:
        p=w+'/r/'+f; t=open(p).read()
        assert t.count(old)>=1,(s['id'],f,old)
        if t.count(old)!=1: assert s.get('nth') is not None,(s['id'],'ambiguous',t.count(old))
        if s.get('nth') is not None:
            parts=t.split(old); n=s['nth']
            t=old.join(parts[:n+1])+new+old.join(parts[n+1:])
        else: t=t.replace(old,new)
        open(p,'w').write(t)
    diff=subprocess.check_output(['git','-C',w+'/r','diff']).decode()
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    pkg=s['pkg']
    hide=''.join(f',"/repo/{pkg}/{os.path.basename(x)}":""' for x in __import__('glob').glob(f'/repo/{pkg}/*_test.go')) if s.get('hide') else ''
    hide=hide.replace('/repo/',"'$R'/") if hide else ''
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
R=$(pwd)
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/demo_test.go"{hide}}}}}' "$R" "$D" > "$W/o.json"
TMPDIR=$W timeout 200 go test -vet=off -count=1 -overlay "$W/o.json" -run '^TestDemo$' ./{pkg}
''')
    open(d+'/demo_test.go','w').write(s['demo'].strip()+'\n')
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
    print(s['id'])
