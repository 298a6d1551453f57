"""retmpl(asset file, old->new...) : edit .tmpl and its compiled-in copy."""
import re,gzip,hashlib,sys
def retmpl(tmpl, edits, root='/repo'):
    F=root+'/gengokit/template/template.go'
    P=root+'/gengokit/template/NAME-service/'+tmpl
    old=open(P,'rb').read()
    n=old.decode()
    for o,w in edits:
        assert n.count(o)==1,(o,n.count(o)); n=n.replace(o,w)
    n=n.encode(); open(P,'wb').write(n)
    s=open(F,encoding='utf-8').read()
    lines=s.split('\n'); done=False
    for i,l in enumerate(lines):
        m=re.match(r'(var \w+ = \[\]byte\(")(.*)("\))$',l)
        if m and gzip.decompress(m.group(2).encode().decode('unicode_escape').encode('latin1'))==old:
            lines[i]=m.group(1)+''.join('\\x%02x'%b for b in gzip.compress(n,mtime=0))+m.group(3); done=True
    assert done
    s='\n'.join(lines)
    hx=lambda b:'{'+', '.join('0x%x'%x for x in hashlib.sha256(b).digest())+'}'
    assert s.count(hx(old))==1; s=s.replace(hx(old),hx(n))
    nm='name: "%s", size: '%tmpl
    assert s.count(nm+str(len(old)))==1; s=s.replace(nm+str(len(old)),nm+str(len(n)))
    f=lambda k:('%dB'%k if k<1000 else ('%.3f'%(k/1000)).rstrip('0').rstrip('.')+'kB')
    c='// NAME-service/%s (%s)'
    assert c%(tmpl,f(len(old))) in s,c%(tmpl,f(len(old))); s=s.replace(c%(tmpl,f(len(old))),c%(tmpl,f(len(n))))
    open(F,'w',encoding='utf-8').write(s)
