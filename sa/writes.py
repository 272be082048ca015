"""Write-effect analysis over the compiler's intermediate representation.

For every function: through which of its pointers may it write?  Pointers are
tracked to their origin (own stack or freshly allocated memory, a parameter, what
a parameter points to, a global variable, memory reached through loads), calls are
resolved (virtual calls through the tables of the library's classes) and effects
propagated to a fixpoint.  A const operation of the witness may write only to its
own stack, its result and memory it allocated itself."""
import re,os,subprocess
from noexc import Mod,LBL,demangle,short
V=r'(%[\w.$-]+|%"[^"]+"|@"[^"]+"|@[\w.$-]+)'
ALLOC=re.compile(r'_Znwm|_Znam|__cxa_allocate_exception|malloc|_ZN2vt5alloc.*8allocate|__cxa_begin_catch|llvm\.')
LOCAL=('local',)
MEM=('mem',)
def params(sig):
    m=re.search(r'@(?:"[^"]+"|[\w.$-]+)\(',sig); r=sig[m.end():]
    out=[];cur='';d=1
    for ch in r:
        if ch in '([{<': d+=1
        elif ch in ')]}>':
            d-=1
            if d==0: break
        if ch==',' and d==1: out.append(cur); cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]
class W:
    def __init__(s,path):
        s.m=Mod(path); m=s.m
        s.vt={}
        for l in open(path):
            if l.startswith('@_ZTV') or l.startswith('@"_ZTV'):
                n=re.match(r'@("[^"]+"|[\w.$-]+)',l).group(1).strip('"')
                if 'poly_collection' not in n: continue
                a=re.search(r'\[\d+ x ptr\] \[(.*?)\]',l)
                if a: s.vt[n]=[(re.search(r'@("[^"]+"|[\w.$-]+)',x) or [None,None])[1] for x in a.group(1).split(', ptr')]
        s.f={}
        for n,d in m.fns.items(): s.f[n]=s.parse(n,d)
        s.solve()
    def parse(s,n,d):
        defs={}; stores=[]; calls=[]; rets=[]
        ps=params(d['sig']); own=set(); names=[]
        for i,p in enumerate(ps):
            # parameter names are implicit (%0..) unless named
            m=re.search(r'(%[\w.$-]+)$',p)
            nm=m.group(1) if m else '%%%d'%i
            names.append(nm)
            defs[nm]=('arg',i) if not re.search(r'\b(sret|byval)\b',p) else ('local',)
        prev=''
        lines=d['lines']
        for li,l in enumerate(lines):
            t=l.strip()
            m=re.match(r'(%[\w.$-]+|%"[^"]+") = (.*)',t)
            dst,r=(m.group(1),m.group(2)) if m else (None,t)
            r0=r.split(', !dbg')[0]
            dbg=(re.search(r'!dbg (!\d+)',t) or (re.search(r'!dbg (!\d+)',lines[li+1]) if 'invoke' in t and li+1<len(lines) else None) or [None,None])[1]
            if r.startswith('alloca'): defs[dst]=('local',dst)
            elif r.startswith('getelementptr'):
                b=re.search(r'ptr '+V,r0)
                c=re.match(r'getelementptr (?:inbounds )?(?:nuw )?ptr, ptr \S+, i64 (\d+)$',r0)
                defs[dst]=('gep',b.group(1) if b else None,int(c.group(1)) if c else None)
            elif r.startswith('load'):
                b=re.search(r', ptr '+V,r0); defs[dst]=('load',b.group(1) if b else None)
            elif r.startswith('phi'): defs[dst]=('phi',[x.strip() for x in re.findall(r'\[ (%[\w.$-]+|@"[^"]+"|@[\w.$-]+|[^,\]]+),',r0)])
            elif r.startswith('select'):
                defs[dst]=('phi',re.findall(r'ptr '+V,r0))
            elif re.match(r'(inttoptr|bitcast|addrspacecast|freeze|ptrtoint|extractvalue|add|sub|and|or)\b',r):
                b=re.findall(V,r0); defs[dst]=('phi',b)
            elif r.startswith('insertvalue'): defs[dst]=('phi',re.findall(V,r0))
            elif re.search(r'\b(call|invoke)\b',r):
                t2,na=s.m.target(r)
                cm=re.search(r'(?:call|invoke)\s(.*)',r).group(1)
                mm=re.search(r'(@(?:"[^"]+"|[\w.$-]+)|%[\w.$-]+|asm[^(]*)\s*\(',cm)
                args=params('@x('+cm[mm.end():]) if mm else []
                av=[(re.findall(V,a)[-1:] or [None])[0] for a in args]
                ind=mm.group(1) if mm and mm.group(1)[0]=='%' else None
                calls.append((t2,ind,av,dbg,dst))
                if dst: defs[dst]=('call',len(calls)-1)
            elif r.startswith('ret '):
                b=re.search(V,r0)
                if b: rets.append(b.group(1))
            elif r.startswith('store'):
                q=re.search(r'store (?:volatile |atomic )*(?:atomic )?(.*), ptr '+V,r0)
                if q:
                    vv=re.findall(V,q.group(1)); stores.append((vv[-1] if vv else None,q.group(2),dbg))
            elif r.startswith('atomicrmw') or r.startswith('cmpxchg'):
                q=re.search(r'ptr '+V,r0)
                if q: stores.append((None,q.group(1),dbg))
            if dst and (r.startswith('atomicrmw') or r.startswith('cmpxchg')):
                q=re.search(r'ptr '+V,r0)
                if q: stores.append((None,q.group(1),dbg))
        return dict(defs=defs,stores=stores,calls=calls,rets=rets,eff={},put=set(),ret=set(),cont={})
    # origins: ('local',x) | ('arg',i,depth) | ('glob',name) | MEM
    def orig(s,F,v,seen=None):
        if v is None: return set()
        if v[0]=='@': return {('glob',v[1:].strip('"'))}
        memo=F.setdefault('om',{})
        if v in memo: return memo[v]
        if seen is None: seen=set()
        if v in seen: return set()
        seen.add(v)
        d=F['defs'].get(v)
        if d is None: r=set()
        elif d[0]=='local': r={('local',d[1] if len(d)>1 else v)}
        elif d[0]=='arg': r={('arg',d[1],0)}
        elif d[0]=='gep': r=s.orig(F,d[1],seen)
        elif d[0]=='phi':
            r=set()
            for x in d[1]:
                if x and x[0] in '%@': r|=s.orig(F,x,seen)
        elif d[0]=='load': r=s.contents(F,s.orig(F,d[1],seen))
        elif d[0]=='call':
            t,ind,av,dbg,_=F['calls'][d[1]]
            r=set()
            if t and ALLOC.match(t): r={('local','new')}
            else:
                for c in s.targets(F,t,ind,len(av)):
                    for o in s.f[c]['ret']: r|=s.mapo(F,o,av,seen)
                if not r: r={MEM} if not t or t not in s.f else set()
        else: r=set()
        if len(seen)==1: memo[v]=r
        return r
    def contents(s,F,os_):
        r=set()
        for o in os_:
            if o[0]=='local': r|=F['cont'].get(o,set())
            elif o[0]=='arg': r.add(('arg',o[1],o[2]+1) if o[2]<2 else MEM)
            else: r.add(MEM)
        return r
    def mapo(s,F,o,av,seen=None):
        """origin of a callee in terms of the caller"""
        if o[0]=='arg':
            r=s.orig(F,av[o[1]],seen) if o[1]<len(av) and av[o[1]] else set()
            for _ in range(o[2]): r=s.contents(F,r)
            return r
        if o[0]=='local': return {('local','new')}
        return {o}
    def targets(s,F,t,ind,na):
        if t is not None:
            t=s.m.resolve(t)
            return [t] if t in s.f else []
        # virtual call: load of (gep of (load of object))
        d=F['defs'].get(ind)
        if not d or d[0]!='load': return []
        g=F['defs'].get(d[1]); slot=None
        if g and g[0]=='gep' and g[2] is not None: slot=g[2]; base=g[1]
        elif g and g[0]=='load': slot=0; base=d[1]
        if slot is None: return []
        b=F['defs'].get(base)
        if not b or b[0]!='load': return []
        out=set()
        for n,a in s.vt.items():
            k=slot+2
            if k<len(a) and a[k]:
                f=a[k].strip('"')
                if f in s.f and s.m.nparams(f)==na: out.add(f)
        return sorted(out)
    def solve(s):
        ch=True; rounds=0
        while ch and rounds<30:
            ch=False; rounds+=1
            for n,F in s.f.items():
                F['om']={}
                def put(to,os_):
                    nonlocal ch
                    for o in to:
                        if o[0]=='local':
                            c=F['cont'].setdefault(o,set())
                            if not os_<=c: c|=os_; ch=True; F['om']={}
                        elif o[0]=='arg':
                            for x in os_:
                                if (o,x) not in F['put']: F['put'].add((o,x)); ch=True
                def eff(o,dbg,why):
                    nonlocal ch
                    if o[0]=='local': return
                    if o not in F['eff']: F['eff'][o]=(dbg,why); ch=True
                for v,p,dbg in F['stores']:
                    op=s.orig(F,p)
                    for o in op: eff(o,dbg,'store')
                    if v: put(op,s.orig(F,v))
                for t,ind,av,dbg,dst in F['calls']:
                    if t and re.match(r'llvm\.mem(cpy|move)',t):
                        op=s.orig(F,av[0])
                        for o in op: eff(o,dbg,'copy')
                        put(op,s.contents(F,s.orig(F,av[1]))); continue
                    if t and re.match(r'llvm\.memset',t):
                        for o in s.orig(F,av[0]): eff(o,dbg,'fill')
                        continue
                    if t and t.startswith('llvm.'): continue
                    for c in s.targets(F,t,ind,len(av)):
                        C=s.f[c]
                        for o,(d2,why) in list(C['eff'].items()):
                            for x in s.mapo(F,o,av): eff(x,dbg,c)
                        for o,x in list(C['put']):
                            put(s.mapo(F,o,av),s.mapo(F,x,av))
                r=set()
                for v in F['rets']: r|={o if o[0]!='local' else ('local','new') for o in s.orig(F,v)}
                if not r<=F['ret']: F['ret']|=r; ch=True
        s.rounds=rounds
    def path(s,n,o,depth=8):
        """call chain to the store"""
        out=[]
        while n in s.f and depth:
            depth-=1
            e=s.f[n]['eff'].get(o)
            if not e: break
            dbg,why=e
            out.append((n,dbg,why))
            if why in('store','copy','fill'): break
            nxt=s.f[why]['eff']
            c=[k for k in nxt if k[0]==o[0] or k[0]=='arg' or k==MEM]
            if not c: break
            n=why; o=c[0]
        return out
def analyse(repo,tmp,units):
    ps=[]
    for i,(lab,src,defs) in enumerate(units):
        o=os.path.join(tmp,'wr%d.ll'%i)
        ps.append((lab,o,subprocess.Popen(['clang++','-std=c++17','-O2','-g1','-S','-emit-llvm','-DNDEBUG','-w','-I'+repo+'/include']+defs+[src,'-o',o],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)))
    finds={};st=dict(roots=0,functions=0,stores=0,errors=[])
    for lab,o,p in ps:
        log=p.communicate()[0]
        if p.returncode: st['errors'].append((lab,log[-800:])); continue
        w=W(o); os.unlink(o)
        st['functions']+=len(w.f); st['stores']+=sum(len(F['stores']) for F in w.f.values())
        for f,t in roots(w,st): finds.setdefault(t,lab)
    return finds,st
def roots(w,st=None):
    for n in w.f:
        if 'vwc_' not in n: continue
        if st is not None: st['roots']+=1
        for o in w.f[n]['eff']:
            if o[0]=='glob' and re.match(r'_ZGV|llvm',o[1]): continue
            pa=w.path(n,o)
            last=pa[-1] if pa else (n,None,'?')
            ch=[c for c in w.m.chain(last[1]) if '/poly_collection/' in c[1]]
            where=' <- '.join('%s (%s:%s)'%(re.sub(r'<.*','',c[0]),c[1].split('/')[-1],c[2]) for c in ch[:4]) or short(demangle([last[0]])[0])
            op=re.search(r'vwc_\w+?(?=R|E|N|K|$)',n)
            what={'glob':'global variable %s'%(o[1] if len(o)>1 else ''),'arg':'the object it is called on','mem':'state reached from the object it is called on'}[o[0]]
            yield n,'%s writes to %s: %s'%(short(demangle([n])[0]).split('(')[0],what,where)
if __name__=='__main__':
    import sys,time
    for f in sys.argv[1:]:
        t=time.time(); w=W(f); print(f,w.rounds,len(w.f),'%.1f'%(time.time()-t))
        for n,t in roots(w): print('  ',t[:300])
