#!/usr/bin/env python3
"""Development aid: mutdir.py DIR < mutant: a copy of /repo at DIR with the mutant applied."""
import re,shutil,sys
d=sys.argv[1]
shutil.rmtree(d,ignore_errors=True)
shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git'))
for q in re.split(r'(?m)^@(?=\S+\.go$)',sys.stdin.read())[1:]:
    fn,q=q.split('\n',1)
    old,new=q.split('\n---\n') if '\n---\n' in q else q.split('\n---')
    p=d+'/'+fn.strip(); s=open(p).read(); old=old.strip('\n')
    assert s.count(old)==1,(s.count(old),old)
    open(p,'w').write(s.replace(old,new.strip('\n')))
