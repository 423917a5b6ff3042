#!/usr/bin/env python3
"""Development aid: run every check against every planted bug (in a scratch clone) and print the table of DESIGN.md."""
import os,json,subprocess,tempfile,shutil,sys
from concurrent.futures import ThreadPoolExecutor
an=os.environ.get('AN','/tmp/an')
ids=['C%02d'%i for i in range(1,24)]
d=tempfile.mkdtemp(prefix='seedt')
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
print('| planted bug | property | needs | reported by |\n|---|---|---|---|')
try:
    for s in sorted(os.listdir('/verif/seeded')):
        R=d+'/'+s
        subprocess.run(['git','clone','-q','/repo',R],check=True)
        if subprocess.run(['git','apply','/verif/seeded/%s/patch.diff'%s],cwd=R).returncode: print('| %s | PATCH DOES NOT APPLY |'%s); continue
        def run(i): return i,subprocess.run([an,i],env=dict(env,VERIF_REPO=R,VERIF_DIR=d+'/v'+i),capture_output=True).returncode
        for i in ids:
            os.makedirs(d+'/v'+i+'/evidence',exist_ok=True); shutil.copy('/verif/known_findings.json',d+'/v'+i)
        with ThreadPoolExecutor(8) as ex: res=list(ex.map(run,ids))
        m=json.load(open('/verif/seeded/%s/meta.json'%s))
        print('| %s | %s | %s | %s |'%(s,m['property'],m['needs'],', '.join(i+('' if c==1 else '(?)') for i,c in res if c) or 'none')); sys.stdout.flush()
        shutil.rmtree(R)
finally: shutil.rmtree(d)
