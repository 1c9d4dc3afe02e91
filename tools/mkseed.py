"""mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS DEMOFILE : write a seed from a textual replacement"""
import sys, os, subprocess, json, shutil, tempfile
def mk(id_, prop, edits, needs, breaks, demo):
    d = f'/verif/seeded/{id_}'
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='/tmp/mk_')
    subprocess.run(['git','clone','-q','/repo',w+'/r'],check=True)
    for f, old, new in edits:
        p = f'{w}/r/{f}'; s = open(p,newline='').read()
        if '\r\n' in s: old, new = old.replace('\n','\r\n'), new.replace('\n','\r\n')
        assert s.count(old)==1, (id_, f, s.count(old), old)
        open(p,'w',newline='').write(s.replace(old,new))
    diff = subprocess.run(['git','-C',w+'/r','diff'],capture_output=True).stdout
    open(d+'/patch.diff','wb').write(diff)
    shutil.rmtree(w)
    open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d+'/demo.py','w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n'+demo.lstrip('\n'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+'/meta.json','w'), indent=1)
