#!/usr/bin/env python3
"""blame.py ID...: tells whether planted bugs change lines of the original repository."""
import sys,re,subprocess
for id in sys.argv[1:]:
    d=open(f'/verif/seeded/{id}/patch.diff').read()
    f=None;orig=mine=0
    for l in d.split('\n'):
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m[1]); continue
        if l.startswith('-') and not l.startswith('---'):
            b=subprocess.run(['git','-C','/repo','blame','-L',f'{n},{n}','HEAD','--',f],capture_output=True,text=True).stdout
            if b.startswith('^'): orig+=1
            else: mine+=1; print('   mine:',l)
            n+=1
        elif l.startswith(' '): n+=1
    print(id,'original',orig,'mine',mine)
