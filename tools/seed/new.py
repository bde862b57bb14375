#!/usr/bin/env python3
"""new.py SPEC: writes /verif/seeded/<id>/ from a spec (id, property, needs, breaks, edits, demo). Author's tool."""
import sys,os,json,subprocess,shutil
W='/tmp/w'
spec={}
exec(open(sys.argv[1]).read(),spec)
for s in spec['SEEDS']:
    if len(sys.argv)>2 and s['id'] not in sys.argv[2:]: continue
    subprocess.run(['git','-C',W,'checkout','-q','--','.'],check=True)
    for f,old,new in s['edits']:
        p=f'{W}/{f}'; t=open(p).read()
        assert t.count(old)==1,(s['id'],f,t.count(old),old)
        open(p,'w').write(t.replace(old,new))
    d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','wb').write(subprocess.run(['git','-C',W,'diff'],capture_output=True,check=True).stdout)
    subprocess.run(['git','-C',W,'checkout','-q','--','.'],check=True)
    json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    here=os.path.dirname(os.path.abspath(__file__))
    shutil.copy(here+'/'+s.get('script','demo.sh'),d+'/demo.sh')
    for extra in s.get('files',['common.rs']): shutil.copy(here+'/'+extra,d)
    if s.get('demo'): open(d+'/main.rs','w').write('mod common;\nuse common::*;\n'+s['demo'])
    if s.get('js'): open(d+'/demo.js','w').write(s['js'].lstrip())
    if s.get('cc'): open(d+'/demo.cc','w').write(s['cc'].lstrip())
    print(s['id'])
