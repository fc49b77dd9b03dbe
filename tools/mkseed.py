#!/usr/bin/env python3
"""Developer tool: makes /verif/seeded/<id> from a spec and checks it in a scratch copy of /repo.
usage: mkseed.py spec.py     where spec.py defines id, prop, needs, breaks, edits=[(file, old, new)], pkg, demo (Go test source)"""
import sys, os, subprocess, json, shutil
spec={}; exec(open(sys.argv[1]).read(),spec)
W='/tmp/seedwt'
if not os.path.isdir(W): subprocess.check_call(['cp','-a','/repo',W])
def sh(c,**k): return subprocess.run(['bash','-c',c],capture_output=True,text=True,**k)
h=sh('git -C /repo rev-parse HEAD').stdout.strip()
sh(f'cd {W} && git fetch -q /repo HEAD && git reset -q --hard {h} && git clean -fdq')
d='/verif/seeded/'+spec['id']; os.makedirs(d,exist_ok=True)
for f,a,b in spec['edits']:
    s=open(f'{W}/{f}').read()
    assert s.count(a)==1,(f,a,s.count(a))
    open(f'{W}/{f}','w').write(s.replace(a,b))
diff=sh(f'cd {W} && git diff').stdout
open(d+'/patch.diff','w').write(diff)
open(d+'/demo_test.go','w').write(spec['demo'])
pkg=spec.get('pkg','.')
race='-race ' if spec.get('race') else ''
open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 when the property's demonstration passes on the code in the current directory
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
echo "{{\\"Replace\\":{{\\"$PWD/{pkg}/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}}}" > "$t/o.json"
exec timeout 250 go test -vet=off -count=1 {race}-timeout 120s -overlay "$t/o.json" -run '^TestZZDemo$' ./{pkg}
''')
os.chmod(d+'/demo.sh',0o755)
json.dump(dict(property=spec['prop'],needs=spec['needs'],what_it_breaks=spec['breaks']),open(d+'/meta.json','w'),indent=1)
env='. /opt/vp/env.sh; cd '+W+'; '
r=sh(env+'go build ./... && go vet ./... 2>&1 | head -3; go test -count=1 ./... 2>&1 | grep -v "no test files"'); 
print(r.stdout[-1500:],r.stderr[-500:])
r1=sh(env+f'bash {d}/demo.sh'); print('with patch:',r1.returncode, r1.stdout[-300:].replace('\n',' | '))
sh(f'cd {W} && git reset -q --hard')
r0=sh(env+f'bash {d}/demo.sh'); print('without:',r0.returncode, r0.stdout[-200:] if r0.returncode else '')
ok = r1.returncode!=0 and r0.returncode==0 and 'FAIL' not in r.stdout
print('KEEP' if ok else 'BAD', spec['id'])
