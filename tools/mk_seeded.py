"""Builds seeded/<id> from definitions: python /tmp/mk.py defs.py"""
import os,subprocess,sys,shutil,json,tempfile,textwrap
HELP=open('/verif/tools/helper.py').read()
def make(sid,prop,edits,demo,needs,breaks):
    d=f'/verif/seeded/{sid}'
    tmp=tempfile.mkdtemp(prefix='mk-')
    try:
        subprocess.run(['git','clone','-q','/repo',tmp+'/r'],check=True)
        for f,a,b in edits:
            p=f'{tmp}/r/jinete/{f}'
            s=open(p).read()
            assert s.count(a)==1,(sid,f,s.count(a),a)
            open(p,'w').write(s.replace(a,b))
        diff=subprocess.run(['git','diff'],cwd=tmp+'/r',capture_output=True,text=True).stdout
    finally: shutil.rmtree(tmp)
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write('#!/bin/bash\ncd "${PWD}"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write('import sys\nsys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))\nfrom helper import *\n\n'+textwrap.dedent(demo).lstrip())
    open(d+'/helper.py','w').write(HELP)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
if __name__=='__main__':
    exec(open(sys.argv[1]).read())
