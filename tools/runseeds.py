#!/usr/bin/env python3
"""runseeds.py [ID...]: runs the check of each planted bug's property on a copy with it."""
import sys, os, subprocess, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[a for a in sys.argv[1:] if a!='-v'] or sorted(os.listdir(here+'/seeded'))
subprocess.check_call([here+'/build.sh'])
def one(i):
    d=f'{here}/seeded/{i}'
    p=json.load(open(d+'/meta.json'))['property']
    w=tempfile.mkdtemp(prefix='rs',dir='/tmp')
    try:
        subprocess.check_call(['git','clone','-q','/repo',w+'/repo'])
        subprocess.check_call(['git','apply',d+'/patch.diff'],cwd=w+'/repo')
        os.makedirs(w+'/v')
        shutil.copy(here+'/known-findings.txt',w+'/v')
        shutil.copytree(here+'/stubs',w+'/v/stubs') if os.path.isdir(here+'/stubs') else None
        x=subprocess.run([here+'/bin/vstat','-prop',p,'-repo',w+'/repo','-verif',w+'/v'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        return i,p,x.returncode,x.stdout
    finally: shutil.rmtree(w)
with ThreadPoolExecutor(4) as ex:
    for i,p,rc,out in ex.map(one,ids):
        print(f"{i:24} {p} {'caught' if rc==1 else 'MISSED' if rc==0 else 'ERROR'}")
        if rc!=1 or '-v' in sys.argv: print('\n'.join('    '+l[:700] for l in out.splitlines()))
