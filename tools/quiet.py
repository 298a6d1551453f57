#!/usr/bin/env python3
"""quiet.py [-p PROP] [NAME...]: runs the claimed checks on copies with edits that keep
the behaviour (tools/quiet/*.py: edits=[(file, old, new)], optional props=[...]);
none may report a violation."""
import sys, os, subprocess, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,here+'/tools')
import claims
from retmpl import retmpl
a=sys.argv[1:]; only=None
if '-p' in a: i=a.index('-p'); only=a[i+1].split(','); del a[i:i+2]
v='-v' in a; a=[x for x in a if x!='-v']
subprocess.check_call([here+'/build.sh'])
def one(n):
    g={}; exec(open(f'{here}/tools/quiet/{n}.py').read(),g)
    w=tempfile.mkdtemp(prefix='qt',dir='/tmp'); out=[]
    try:
        subprocess.check_call(['git','clone','-q','/repo',w+'/repo'])
        for t,ed in g.get('tmpl',[]): retmpl(t,ed,w+'/repo')
        for f,o,nw in g['edits']:
            p=f'{w}/repo/{f}'; s=open(p).read()
            if s.count(o)!=1: return n,[f'edit matches {s.count(o)} times in {f}: {o[:60]!r}']
            open(p,'w').write(s.replace(o,nw))
        b=subprocess.run('. /opt/vp/env.sh; go build ./... ',cwd=w+'/repo',shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
        if b.returncode: return n,['does not build: '+b.stdout]
        os.makedirs(w+'/v'); shutil.copy(here+'/known-findings.txt',w+'/v')
        if os.path.isdir(here+'/stubs'): shutil.copytree(here+'/stubs',w+'/v/stubs')
        for p in only or g.get('props') or sorted(claims.T):
            x=subprocess.run([here+'/bin/vstat','-prop',p,'-repo',w+'/repo','-verif',w+'/v'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
            if x.returncode: out.append(f'{p} NOT QUIET ({x.returncode})\n'+'\n'.join('      '+l[:500] for l in x.stdout.splitlines()))
            elif 'UNDECIDED' in x.stdout: out.append(f'{p} undecided {x.stdout.count("UNDECIDED")}'+('\n'+'\n'.join('      '+l[:500] for l in x.stdout.splitlines()) if v else ''))
        return n,out
    finally: shutil.rmtree(w)
ns=a or sorted(os.path.basename(f)[:-3] for f in glob.glob(here+'/tools/quiet/*.py'))
with ThreadPoolExecutor(6) as ex:
    for n,out in ex.map(one,ns):
        print(n,'quiet' if not out else '')
        for o in out: print('   ',o)
