#!/usr/bin/env python3
"""Development aid: make a planted bug. usage: seed.py ID < spec
spec:  property: Cxx / needs: ... / what: ...  (header lines), then '#### patch' with mutants
(OLD --- NEW, '====' between, '@file' first line), then '#### demo' with the Go test file."""
import sys,os,json,subprocess,shutil,tempfile
sid=sys.argv[1]
spec=sys.stdin.read()
head,rest=spec.split('#### patch\n',1)
patch,demo=rest.split('#### demo\n',1)
h=dict(l.split(':',1) for l in head.strip().split('\n'))
h={k.strip():v.strip() for k,v in h.items()}
d=tempfile.mkdtemp(prefix='seed')
R=d+'/repo'
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
try:
    subprocess.run(['git','clone','-q','/repo',R],check=True)
    out='/verif/seeded/'+sid
    os.makedirs(out,exist_ok=True)
    open(out+'/demo_test.go','w').write(demo)
    open(out+'/demo.sh','w').write('''#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds on the demonstrated input
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
timeout 240 go test -vet=off -overlay "$T/o.json" -run '^TestDemo' -count=1 .
''')
    os.chmod(out+'/demo.sh',0o755)
    json.dump({'property':h['property'],'needs':h['needs'],'what_it_breaks':h['what']},open(out+'/meta.json','w'),indent=1)
    p=subprocess.run(['bash',out+'/demo.sh'],cwd=R,env=env,capture_output=True,text=True)
    if p.returncode: print(sid,'DEMO FAILS ON BASE\n',p.stdout[-1500:],p.stderr[-1500:]); sys.exit(1)
    for m in patch.split('\n====\n'):
        l,m=m.lstrip('\n').split('\n',1); fn=l[1:].strip()
        old,new=m.split('\n---\n') if '\n---\n' in m else m.split('\n---')
        old=old.strip('\n'); new=new.strip('\n')
        s=open(R+'/'+fn).read()
        if s.count(old)!=1: print('!! occurrences',s.count(old),repr(old[:80])); sys.exit(1)
        open(R+'/'+fn,'w').write(s.replace(old,new))
    b=subprocess.run(['go','build','./...'],cwd=R,env=env,capture_output=True,text=True)
    if b.returncode: print('build',b.stderr[:800]); sys.exit(1)
    t=subprocess.run(['go','test','-vet=off','-count=1','./...'],cwd=R,env=env,capture_output=True,text=True)
    if t.returncode: print(sid,'TESTS FAIL',[l for l in t.stdout.split('\n') if 'FAIL' in l][:8]); sys.exit(1)
    p=subprocess.run(['bash',out+'/demo.sh'],cwd=R,env=env,capture_output=True,text=True)
    if p.returncode==0: print(sid,'DEMO PASSES WITH BUG'); sys.exit(1)
    open(out+'/patch.diff','w').write(subprocess.run(['git','diff'],cwd=R,capture_output=True,text=True).stdout)
    an=os.environ.get('AN','/tmp/an')
    r=subprocess.run([an,h['property']],env=dict(env,VERIF_REPO=R,VERIF_DIR=d),capture_output=True,text=True)
    print(sid,'ok; check',h['property'],'exit',r.returncode, 'CAUGHT' if r.returncode==1 else 'MISSED', [l for l in p.stdout.split('\n') if 'zz_demo' in l][:2])
finally:
    shutil.rmtree(d)
