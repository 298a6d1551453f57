"""embed(var, old, new): an edit of a compiled-in template alone."""
import re, gzip
F='gengokit/template/template.go'
def embed(var, old, new, n=1):
    line=[l for l in open('/repo/'+F,encoding='utf-8') if l.startswith('var '+var+' =')][0]
    q=re.search(r'\[\]byte\("(.*)"\)',line).group(1)
    raw=q.encode().decode('unicode_escape').encode('latin1')
    s=gzip.decompress(raw).decode()
    assert s.count(old)>=1,(var,old)
    out=gzip.compress(s.replace(old,new,n).encode(),mtime=0)
    return (F,line,'var %s = []byte("%s")\n'%(var,''.join('\\x%02x'%b for b in out)))
