#!/usr/bin/env python3
"""Development aid: apply textual mutants to a scratch copy of /repo and run the analyzer on it.
usage: mut.py [-t] IDS FILE <<< mutants ; each mutant:  OLD \n---\n NEW, separated by lines '====' ; IDS comma separated or 'all'
-t also runs the test suite on the mutant."""
import re, sys, os, subprocess, shutil, tempfile
args=sys.argv[1:]
test='-t' in args
args=[a for a in args if a!='-t']
ids=args[0].split(',')
deff=args[1] if len(args)>1 else None
an=os.environ.get('AN','/tmp/an')
env=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
import time
from concurrent.futures import ThreadPoolExecutor
def one(m):
    o=[]
    m=m.strip('\n')
    mids=ids
    if m.startswith('#C'):
        l,m=m.split('\n',1); mids=ids if ids!=['own'] else l[1:].split()[0].split(',')
    if not m.startswith('@'): m='@'+deff+'\n'+m
    parts=[]
    for q in re.split(r'(?m)^@(?=\S+\.go$)',m)[1:]:
        fn,q=q.split('\n',1)
        old,new=q.split('\n---\n') if '\n---\n' in q else q.split('\n---')
        parts.append((fn.strip(),old.strip('\n'),new.strip('\n')))
    d=tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree(os.environ.get('REPO','/repo'),d+'/repo',ignore=shutil.ignore_patterns('.git'))
        for fn,old,new in parts:
            p=d+'/repo/'+fn
            s=open(p).read()
            if s.count(old)!=1: return '!! occurrences: %d %r'%(s.count(old),old[:60])
            open(p,'w').write(s.replace(old,new))
        old,new=parts[0][1:]
        b=subprocess.run(['go','build','./...'],cwd=d+'/repo',env=env,capture_output=True,text=True)
        if b.returncode: return '!! build '+b.stderr[:500]
        t=''
        if test:
            t=subprocess.run(['go','test','./...'],cwd=d+'/repo',env=env,capture_output=True,text=True)
            t='tests '+('ok ' if t.returncode==0 else 'FAIL ')
        t0=time.time()
        try: r=subprocess.run([an]+mids,env=dict(env,VERIF_REPO=d+'/repo',VERIF_DIR=d),capture_output=True,text=True,timeout=int(os.environ.get('T','300')))
        except subprocess.TimeoutExpired: return '!! timeout %r'%new[:70]
        v=[l for l in (r.stdout+r.stderr).split('\n') if l.startswith('  [') or 'VIOLATION' in l or 'error' in l]
        dt=time.time()-t0
        o=['%sMUT %r%s exit %d'%(t,new[:70],' SLOW %d s'%dt if dt>60 else '',r.returncode)]
        return '\n'.join(o+['     '+l[:260] for l in v[:8]])
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get('J','6'))) as ex:
    for r in ex.map(one,[m for m in sys.stdin.read().split('\n====\n') if m.strip()]): print(r,flush=True)
