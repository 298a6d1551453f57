#!/usr/bin/env python3
"""seed.py SPEC.py...: makes /verif/seeded/<id>/ from a description, checks it.

A description sets id, prop, needs, breaks, edits=[(file, old, new)],
helpers=[names of tools/demo/*.go.txt], test=Go source of the demonstration."""
import sys, os, subprocess, shutil, json, tempfile
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,here+'/tools')
from retmpl import retmpl
def run(cmd,cwd,env=None,**k):
    return subprocess.run(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def make(spec):
    g={}
    exec(open(spec).read(),g)
    d=os.path.join(here,'seeded',g['id'])
    os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='seed',dir='/tmp')
    try:
        subprocess.check_call(['git','clone','-q','/repo',w+'/repo'])
        r=w+'/repo'
        for t,ed in g.get('tmpl',[]): retmpl(t,ed,r)
        for f,a,b in g.get('edits',[]):
            p=os.path.join(r,f); s=open(p).read()
            if s.count(a)!=1: print(g['id'],'edit matches',s.count(a),'times in',f); return False
            open(p,'w').write(s.replace(a,b))
        if g.get('edits') and run(['gofmt','-l']+sorted({f for f,_,_ in g.get('edits',[])}),r).stdout.strip(): run(['gofmt','-w']+[f for f,_,_ in g.get('edits',[]) if f.endswith('.go') and 'template.go' not in f],r)
        subprocess.check_call(['git','checkout','-q','--','gengokit/template/NAME-service'],cwd=r) # only source code counts
        diff=run(['git','diff'],r).stdout
        open(d+'/patch.diff','w').write(diff)
        sh=os.path.join(here,'tools/demo/demo.sh')
        open(d+'/demo.sh','w').write(g.get('demo') or open(sh).read()); os.chmod(d+'/demo.sh',0o755)
        for old in os.listdir(d):
            if old.endswith('.go.txt'): os.remove(os.path.join(d,old))
        for h in g.get('helpers',['regen']): shutil.copy(os.path.join(here,'tools/demo',h+'.go.txt'),d)
        if g.get('test'): open(d+'/demo.go.txt','w').write(g['test'])
        for n,t in g.get('files',{}).items(): open(os.path.join(d,n),'w').write(t)
        json.dump(dict(property=g['prop'],needs=g['needs'],what_it_breaks=g['breaks']),open(d+'/meta.json','w'),indent=1)
        b=run('. /opt/vp/env.sh; go build ./... ',r,shell=True)
        if b.returncode: print(g['id'],'does not build\n',b.stdout); return False
        stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        tr=run('. /opt/vp/env.sh; o=; go test -c -vet=off -o /dev/null ./gengokit/httptransport >/dev/null 2>&1 || o="-overlay=$PWD.ov.json"; sed "s#/repo/#$PWD/#g" /opt/vp/overlay.json >$PWD.ov.json; go test -json -vet=off -count=1 $o ./...',r,shell=True,executable='/bin/bash')
        passed=set()
        for l in tr.stdout.splitlines():
            try: j=json.loads(l)
            except ValueError: continue
            if j.get('Action')=='pass' and 'Test' in j: passed.add(j['Package']+'/'+j['Test'])
        if stable-passed: print(g['id'],'TESTS CATCH IT',sorted(stable-passed)[:4]); return False
        x=run(['bash',d+'/demo.sh'],r)
        subprocess.check_call(['git','checkout','-q','--','.'],cwd=r)
        y=run(['bash',d+'/demo.sh'],r)
        ok=x.returncode!=0 and y.returncode==0
        print(g['id'],'demo ok' if ok else f'DEMO WRONG with={x.returncode} without={y.returncode}')
        if not ok: print(x.stdout[-2500:],'\n-----\n',y.stdout[-2500:])
        elif '-v' in sys.argv: print(x.stdout[-1500:])
        return ok
    finally: shutil.rmtree(w)
for s in sys.argv[1:]:
    if s!='-v': make(s)
