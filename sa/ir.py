"""Loading of the exported program."""
import json,re
_op=re.compile(r'operator(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)')
def strip(q):
    """qualified name without template arguments"""
    out=[];d=0;i=0
    while i<len(q):
        if d==0:
            m=_op.match(q,i)
            if m: out.append(m.group(0)); i=m.end(); continue
        c=q[i]
        if c=='<': d+=1
        elif c=='>': d-=1
        elif d==0: out.append(c)
        i+=1
    return ''.join(out)

class Prog:
    def __init__(s,path):
        d=json.load(open(path))
        s.types=d['types']; s.files=d['files']; s.errors=d['errors']; s.unknown=d['unknown']
        s.fns={int(k):v for k,v in d['fns'].items()}
        s.recs={int(k):v for k,v in d['recs'].items()}
        s.vars={int(k):v for k,v in d['vars'].items()}
        s.entries=d['entries']
        for i,f in s.fns.items(): f['id']=i; f['sq']=strip(f['q'])
        for i,r in s.recs.items(): r['id']=i; r['sq']=strip(r['q'])
        s.byname={}
        for f in s.fns.values(): s.byname.setdefault(f['sq'],[]).append(f)
        # virtual overriding: (class,base method)->final overrider
        s.ov={}
        for f in s.fns.values():
            for b in f.get('ov',()): s.ov.setdefault((f['cls'],b),f['id'])
        s._closure()
    def _closure(s):
        ch=True
        while ch:
            ch=False
            for f in s.fns.values():
                for b in f.get('ov',()):
                    for bb in s.fns.get(b,{}).get('ov',()):
                        if (f['cls'],bb) not in s.ov: s.ov[(f['cls'],bb)]=f['id']; ch=True
    def tstr(s,t): return s.types[t]['s']
    def loc(s,l):
        if not l or l[0]<0: return '?'
        f=s.files[l[0]]
        if '/repo/' in f: f=f[f.index('/repo/')+6:]
        elif '/vwinc/' in f: f='include/'+f[f.index('/vwinc/')+7:]
        return f+':'+str(l[1])
    def bases(s,r):
        out=[]
        for b in s.recs.get(r,{}).get('bases',()):
            out.append(b['r']); out+=s.bases(b['r'])
        return out
    def override(s,cls,m):
        """final overrider of method m for dynamic class cls"""
        seen=[cls]; i=0
        while i<len(seen):
            c=seen[i]; i+=1
            if s.fns[m].get('cls')==c: return m
            if (c,m) in s.ov: return s.ov[(c,m)]
            seen+= [b['r'] for b in s.recs.get(c,{}).get('bases',())]
        return None
    def fields(s,r):
        """all fields incl. bases, as (key,field)"""
        out=[]
        R=s.recs[r]
        for b in R.get('bases',()): out+=s.fields(b['r'])
        for f in R.get('fields',()): out.append((f['id'] if R['in'] else f['n'],f))
        return out
def walk(x,cb):
    if isinstance(x,dict):
        cb(x)
        for v in x.values():
            if isinstance(v,(dict,list)): walk(v,cb)
    elif isinstance(x,list):
        for v in x:
            if isinstance(v,(dict,list)): walk(v,cb)
