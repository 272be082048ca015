"""Inter-procedural abstract interpreter over the exported program.

Abstract state = memory of abstract objects x polyhedral constraints.
Vectors are array segmentations (zones of symbolic length, elements given by a
template in the zone index), tagged with the identity of their allocation.
Loops whose condition is undecided are handled by affine acceleration: a
candidate invariant is read off two iterations and accepted only if it is
verified to be inductive.  Anything not understood becomes TOP and makes the
path undecided (never a violation)."""
import sys
from math import gcd
from poly import Aff,Cons,sym,ZERO,ONE
sys.setrecursionlimit(20000)

NULL=('N',); UNDEF=('X',)
def TOP(r='?'): return ('?',r)
def istop(v): return isinstance(v,tuple) and len(v)>0 and v[0]=='?'
J='$j'
def L(oid,path=(),off=0): return ('L',oid,path,off)
def B(buf,off,path=()): return ('B',buf,Aff.of(off),path)
def tok(k,*a): return ('T',k)+a
def Rec(cls,d): return ('R',cls,tuple(sorted(d.items(),key=lambda x:str(x[0]))))
def rget(r,k,dflt=UNDEF):
    for a,b in r[2]:
        if a==k: return b
    return dflt
def rset(r,k,v):
    d=dict(r[2]); d[k]=v
    return Rec(r[1],d)
def vsub(v,m):
    if isinstance(v,Aff): return v.subst(m)
    if isinstance(v,tuple):
        ch=False; out=[]
        for x in v:
            if isinstance(x,(tuple,Aff)):
                y=vsub(x,m); ch|=y is not x
            else: y=x
            out.append(y)
        return tuple(out) if ch else v
    return v
def vsyms(v,acc):
    if isinstance(v,Aff): acc|=v.syms()
    elif isinstance(v,tuple):
        for x in v:
            if isinstance(x,(tuple,Aff)): vsyms(x,acc)
    return acc
def vren(v,m):
    """rename buffers"""
    if isinstance(v,tuple):
        if len(v)==4 and v[0]=='B': return ('B',m.get(v[1],v[1]),v[2],v[3])
        if len(v)>1 and v[0]=='V': return ('V',m.get(v[1],v[1]))+tuple(vren(x,m) if isinstance(x,tuple) else x for x in v[2:])
        return tuple(vren(x,m) if isinstance(x,tuple) else x for x in v)
    return v
# ---- vectors -------------------------------------------------------------
# ('V',buf,size,cap,esz,ety,zones,al);  zone=(len,template in $j)
def V(buf,size,cap,esz,ety,zones,al): return ('V',buf,Aff.of(size),Aff.of(cap),esz,ety,zones,al)
def zat(z,i): return vsub(z[1],{J:i})
class Undecided(Exception): pass
def zdrop(zs,n,cons):
    """remove the first n elements (0<=n<=total)"""
    n=Aff.of(n); out=list(zs)
    while out:
        if cons.entails_eq(n): return out
        ln,t=out[0]
        if cons.entails(n-ln): out.pop(0); n=n-ln; continue
        if cons.entails(ln-n): out[0]=(ln-n,vsub(t,{J:sym(J)+n})); return out
        raise Undecided((n,ln))
    if cons.entails_eq(n): return out
    raise Undecided((n,'end'))
def ztake(zs,n,cons):
    n=Aff.of(n); out=[]
    for ln,t in zs:
        if cons.entails_eq(n): return out
        if cons.entails(n-ln): out.append((ln,t)); n=n-ln; continue
        if cons.entails(ln-n): out.append((n,t)); return out
        raise Undecided((n,ln))
    if cons.entails_eq(n): return out
    raise Undecided((n,'end'))
def veq(a,b,cons):
    if a==b: return True
    if isinstance(a,Aff) and isinstance(b,Aff): return cons.entails_eq(a-b)
    if isinstance(a,tuple) and isinstance(b,tuple) and len(a)==len(b): return all(veq(x,y,cons) for x,y in zip(a,b))
    return False
def zjoin(a,b,cons):
    """zones a and b adjacent: merged zone or None"""
    la,ta=a; lb,tb=b
    if la==ZERO: return b
    if lb==ZERO: return a
    if veq(vsub(ta,{J:sym(J)+la}),tb,cons): return (la+lb,ta)
    if lb==ONE and vsub(ta,{J:la})==tb and J in vsyms(ta,set()): return (la+lb,ta)
    if la==ONE and J not in vsyms(ta,set()):
        t0=vsub(tb,{J:sym(J)-1}) if J in vsyms(tb,set()) else None
        if t0 is not None and vsub(t0,{J:ZERO})==ta: return (lb+1,t0)
        if lb==ONE:
            g=step(ta,tb)
            if g is not None: return (la+lb,g)
    return None
def step(a,b):
    """template t with t(0)=a, t(1)=b when they differ by the natural stride"""
    if a==b: return a if not vsyms(a,set())and False else None
    def go(x,y):
        if x==y: return x
        if isinstance(x,Aff) and isinstance(y,Aff):
            d=y-x
            if d.isconst() and d.c>0: return x+sym(J).scale(d.c)
            return None
        if isinstance(x,tuple) and isinstance(y,tuple) and len(x)==len(y):
            if x[:1]==('T',) and x[1]!=y[1]: return None
            out=[]
            for p,q in zip(x,y):
                if isinstance(p,(tuple,Aff)) or isinstance(q,(tuple,Aff)):
                    r=go(p,q)
                    if r is None: return None
                else:
                    if p!=q: return None
                    r=p
                out.append(r)
            return tuple(out)
        return None
    return go(a,b)
def znorm(zs,cons):
    out=[]
    for z in zs:
        if cons.entails_eq(z[0]): continue
        while out:
            m=zjoin(out[-1],z,cons)
            if m is None: break
            out.pop(); z=m
        out.append(z)
    return tuple(out)

class St:
    __slots__=('mem','cons','ev','ds','facts','top')
    def __init__(s,mem,cons,ev=(),ds=(),facts=(),top=()):
        s.mem=mem; s.cons=cons; s.ev=ev; s.ds=ds; s.facts=facts; s.top=top
    def cp(s,**k):
        n=St(s.mem,s.cons,s.ev,s.ds,s.facts,s.top)
        for a,b in k.items(): setattr(n,a,b)
        return n
    def set(s,oid,v):
        m=dict(s.mem); m[oid]=v; return s.cp(mem=m)
    def rm(s,oids):
        m=dict(s.mem)
        for o in oids: m.pop(o,None)
        return s.cp(mem=m)
    def event(s,*e):
        if s.top and e[0] in('VIOL','VIOL-NX'): return s   # nothing definite after an undecided step
        return s.cp(ev=s.ev+(e,))
    def mktop(s,r): return s.cp(top=s.top+(r,)) if len(s.top)<5 else s
    def assume(s,a): return s.cp(cons=s.cons.add(a))
    def dead(s): return s.cons.infeasible()
    def subst(s,m):
        return St({k:vsub(v,m) for k,v in s.mem.items()},s.cons.subst(m),vsub(s.ev,m),vsub(s.ds,m),vsub(s.facts,m),s.top)

class Budget(Exception): pass

def stop(outs,heads,x,z,k):
    """an iteration that ends in a definite violation is not continued"""
    if any(e[0]=='VIOL' for e in z.ev[len(x.ev):]): outs.append(('n',z))
    else: heads.append((z,k+1))
class Interp:
    def __init__(s,prog,models,maxsteps=400000):
        s.p=prog; s.models=models; s.n=0; s.sinks=[[]]; s.stack=[]; s.steps=0; s.maxsteps=maxsteps
        s.analysed=set(); s.undecided=[]; s.called_models=set(); s.userthrow=True
        s.elem_classes=set(); s.lazy=False; s.traits={}; s.neworder=False; s.max_peel=3; s.max_rounds=8
    watch=frozenset(); unroll=0; multi=False; mon=None; loopviol=()
    def fresh(s,p='s'):
        s.n+=1; return sym(f'{p}{s.n}')
    def uid(s):
        s.n+=1; return s.n
    def buf(s):
        s.n+=1; return f'b{s.n}'
    # -- types
    def ty(s,t): return s.p.types[t]
    def isref(s,t): return s.ty(t)['k'] in('lref','rref')
    def size(s,t): return s.ty(t).get('z')
    def cls(s,t):
        t=s.ty(t)
        while t['k'] in('lref','rref'): t=s.ty(t['p'])
        return t.get('r')
    def rectype(s,c):
        if not hasattr(s,'_rt'):
            s._rt={}
            for i,t in enumerate(s.p.types):
                if t and t['k']=='rec' and not t['s'].startswith('const ') and t.get('r') is not None: s._rt.setdefault(t['r'],i)
        return s._rt.get(c)
    def ptrto(s,t):
        if not hasattr(s,'_pt'):
            s._pt={}
            for i,x in enumerate(s.p.types):
                if x and x['k']=='ptr': s._pt.setdefault(s.p.types[x['p']]['s'],i)
        return s._pt.get(s.p.tstr(t))
    def method(s,c,name,np):
        seen=[c]; i=0
        if not hasattr(s,'_mm'):
            s._mm={}
            for f in s.p.fns.values():
                if f.get('cls') is not None and 'body' in f: s._mm.setdefault((f['cls'],f['n'],len(f['ps'])),f['id'])
        while i<len(seen):
            g=s._mm.get((seen[i],name,np))
            if g is not None: return g
            seen+=[b['r'] for b in s.p.recs.get(seen[i],{}).get('bases',())]
            i+=1
        return None
    def soccc(s,c):
        if c is None: return None
        g=s.method(c,'select_on_container_copy_construction',0)
        if g is None and s.p.recs[c]['in']:
            # the same member of another rebound adaptor
            for f in s.p.byname.get(s.p.recs[c]['sq']+'::select_on_container_copy_construction',()):
                if 'body' in f: return f['id']
        return g
    def usoccc(s,c):
        # the user's allocator declares the hook (no body)
        for f in s.p.byname.get('vt::alloc::select_on_container_copy_construction',()):
            if c is not None and s.p.recs[c]['sq']=='vt::alloc': return f['id']
        return None
    def altrait(s,c,name): return s.traits.get(name,False)
    def constructing(s,st,node): return False
    def branch1(s,st,c):
        r=s.branch(st,c)
        return r[0][1] if len({b for _,b in r})==1 else None
    def iter_ref(s,t):
        c=s.cls(t)
        R=s.p.recs.get(c)
        if R is None:
            x=s.ty(t)
            if x['k']=='ptr':
                for i,y in enumerate(s.p.types):
                    if y and y['k']=='lref' and y['p']==x['p']: return i
            return None
        for f in s.p.fns.values():
            if f.get('cls')==c and f['n']=='operator*': return f['ret']
        return None
    # -- exceptions
    def throw(s,st,exc):
        if not st.dead(): s.sinks[-1].append((st,exc))
    # -- memory
    def vecs(s,st):
        """buffer -> (address,vector) for all live vectors"""
        out={}
        def go(v,oid,path):
            if not isinstance(v,tuple) or not v: return
            if v[0]=='V': out[v[1]]=(L(oid,path),v)
            elif v[0]=='R':
                for k,x in v[2]: go(x,oid,path+(k,))
        for o,v in st.mem.items(): go(v,o,())
        return out
    def elem(s,st,a):
        """a: ('B',..) -> (vecaddr,vec,index,sub) ; None if dangling"""
        o=s.vecs(st).get(a[1])
        if o is None: return None
        va,v=o; off=a[2]
        sub=off.c%v[4]
        idx=(off-sub).divexact(v[4])
        return va,v,idx,sub
    def rd(s,st,a):
        """value stored at address a; returns (st,value)"""
        if a[0]=='L':
            if a[1] not in st.mem:
                if isinstance(a[1],tuple) and a[1][0]=='ti': return st,tok('ti',a[1][1])
                return st.mktop('dead:%s'%(a[1],)),TOP('dead')
            v=st.mem[a[1]]
            if v==('D',): return st.event('VIOL','use of a destroyed object',s.where()),TOP('destroyed')
            for k in a[2]:
                if isinstance(v,tuple) and v[0]=='R': v=rget(v,k)
                elif v==UNDEF: v=UNDEF
                else: return st.mktop('rd'),TOP('rd')
            if isinstance(v,tuple) and v[:2]==('T','val') and a[3]!=s.okoff(v,a[3]):
                return st,v
            return st,v
        if a[0]=='B':
            o=s.elem(st,a)
            if o is None:
                return st.event('VIOL','access through a pointer into released storage',s.where()),TOP('dangling')
            va,v,idx,sub=o
            if idx is None: return st.mktop('elemoff'),TOP('elemoff')
            if not(st.cons.entails(idx) ):
                if not st.cons.possible(idx): return st.event('VIOL','access before the beginning of storage',s.where()),TOP('oob')
                return st.mktop('lower'),TOP('lower')
            if st.cons.entails(idx-v[2]):
                return st,tok('raw',v[1],idx)
            try:
                z=zdrop(v[6],idx,st.cons)
            except Undecided:
                if s.mon is None or not s.mon.probe or not st.cons.possible(v[2]-idx-1): return st.mktop('zone'),TOP('zone')
                st=st.assume(v[2]-idx-1)
                try: z=zdrop(v[6],idx,st.cons)
                except Undecided: return st.mktop('zone'),TOP('zone')
            if not z: return st,tok('raw',v[1],idx)
            if not st.cons.entails(z[0][0]-1):
                if s.mon is None or not s.mon.probe or not st.cons.possible(z[0][0]-1): return st.mktop('zone0'),TOP('zone0')
                st=st.assume(z[0][0]-1)
            x=zat(z[0],ZERO)
            for k in a[3]:
                if isinstance(x,tuple) and x[0]=='R': x=rget(x,k)
                else: return st.mktop('rdb'),TOP('rdb')
            return st,x
        return st.mktop('rd?'),TOP('rd?')
    def okoff(s,v,o): return o
    def wr(s,st,a,x):
        if a[0]=='L':
            def up(v,path):
                if not path: return x
                if not(isinstance(v,tuple) and v[0]=='R'): v=Rec(None,{})
                return rset(v,path[0],up(rget(v,path[0]),path[1:]))
            if s.watch and a[1] in s.watch: st=st.event('wrote',a[1],s.where())
            return st.set(a[1],up(st.mem.get(a[1],UNDEF),a[2]))
        if a[0]=='B':
            o=s.elem(st,a)
            if o is None: return st.event('VIOL','write through a pointer into released storage',s.where())
            va,v,idx,sub=o
            try:
                if idx is None or a[3]: raise Undecided
                z=ztake(v[6],idx,st.cons)+[(ONE,x)]+zdrop(v[6],idx+1,st.cons)
            except Undecided: return st.mktop('wr')
            return s.wr(st,va,v[:6]+(znorm(z,st.cons),)+v[7:])
        if istop(a): return st.mktop('wr?')
        return st.mktop('wr?')
    def where(s): return s.stack[-1][1] if s.stack else '?'
    def trace(s): return ' <- '.join('%s (%s)'%(f,l) for f,l in reversed(s.stack[-6:]))
    # -- conditions
    def branch(s,st,c):
        """-> list of (state,bool)"""
        if c is True or c is False: return [(st,c)]
        if isinstance(c,Aff): c=('c','!=0',c)
        if isinstance(c,tuple) and c[0]=='c':
            op,a=c[1],c[2]
            if s.lazy and op in('>=0','==0','!=0'):
                k=[(v,co) for v,co in a.t if v.startswith('cap')]
                if k and not(st.cons.entails(a) and (op=='>=0' or st.cons.entails(-a))):
                    co=k[0][1]
                    # the capacity is as large as this program point needs
                    w=a-1 if co>0 else -a-1
                    if op=='>=0' and co>0: w=a
                    if st.cons.possible(w):
                        return [(st.assume(w),{'>=0':co>0,'==0':False,'!=0':True}[op])]
            if op=='not': return [(x,not b) for x,b in s.branch(st,a)]
            if op=='>=0':
                if st.cons.entails(a): return [(st,True)]
                if st.cons.entails(-a-1): return [(st,False)]
                return [(y,b) for y,b in((st.assume(a),True),(st.assume(-a-1),False)) if not y.dead()]
            if op in('==0','!=0'):
                if st.cons.entails_eq(a): return [(st,op=='==0')]
                if st.cons.entails(a-1) or st.cons.entails(-a-1): return [(st,op=='!=0')]
                out=[]
                if st.cons.possible(a) and st.cons.possible(-a):
                    y=s.assume_eq(st,a)
                    if not y.dead(): out.append((y,op=='==0'))
                for z in(a-1,-a-1):
                    y=st.assume(z)
                    if not y.dead(): out.append((y,op=='!=0'))
                return out
            if op=='op':
                for k,v in st.facts:
                    if k==a: return [(st,v)]
                return [(st.cp(facts=st.facts+((a,True),)),True),(st.cp(facts=st.facts+((a,False),)),False)]
        if c==NULL: return [(st,False)]
        if isinstance(c,tuple) and c[0] in('L','B','F'): return [(st,True)]
        st=st.mktop('cond:%r'%(c,))
        return [(st,True),(st,False)]
    def assume_eq(s,st,a):
        best=None
        g=0
        for v,c in a.t: g=gcd(g,abs(c))
        if g>1:
            if a.c%g: return st.assume(Aff(-1))
            a=a.divexact(g)
        for v,c in a.t:
            if abs(c)==1 and (best is None or s.symrank(v)>s.symrank(best[0])): best=(v,c)
        if best is None: return st.assume(a).assume(-a)
        v,c=best
        e=(Aff(0,((v,c),))-a).scale(c)   # v = e
        # the equation stays known: values computed before this point may still mention v
        d=sym(v)-e
        return st.subst({v:e}).assume(d).assume(-d)
    def symrank(s,v):
        i=len(v)
        while i>0 and v[i-1].isdigit(): i-=1
        return int(v[i:]) if i<len(v) and i>0 else -1
    # -- calls
    def tick(s):
        s.steps+=1
        if s.steps>s.maxsteps: raise Budget()
    def dynclass(s,st,a):
        if a[0]!='L' or a[2]: 
            # subobject: class of the record found there
            st2,v=s.rd(st,a)
            return v[1] if isinstance(v,tuple) and v[0]=='R' else None
        v=st.mem.get(a[1])
        return v[1] if isinstance(v,tuple) and v[0]=='R' else None
    def call(s,fid,this,args,st,node=None,target=None):
        s.tick()
        f=s.p.fns[fid]
        if len(s.stack)>150: return [(st.mktop('depth'),TOP('depth'))]
        if f.get('kind')=='dtor':
            c=f['cls']
            if isinstance(this,tuple) and this[0]=='L' and not this[2] and f.get('virt'): c=s.dynclass(st,this) or c
            if f.get('triv'): return [(st,None)]
            if isinstance(this,tuple) and this[0]=='L' and not this[2] and st.mem.get(this[1])==('D',):
                return [(st.event('VIOL','object destroyed twice',s.trace()),None)]
            return [(x,None) for x in s.destroy_full(st,this,c)]
        m=s.models.get(f['sq'])
        if m is not None:
            s.called_models.add(f['sq'])
            r=m(s,f,this,args,st,node)
            if r is not NotImplemented: return r
        if 'body' in f or 'inits' in f: return s.call_body(f,this,args,st,node)
        sk=f.get('sk')
        if sk in('cc','mc'):
            st2,v=s.rd(st,args[0])
            return [(s.wr(st2,this,v),None)] if this is not None else [(st2,v)]
        if sk in('ca','ma'):
            st2,v=s.rd(st,args[0])
            return [(s.wr(st2,this,v),this)]
        if sk=='dc' and (f.get('triv') or f.get('dfl') or f.get('imp')): return [(st,None)]
        s.undecided.append('no body: '+f['sq'])
        return [(st.mktop('nobody:'+f['sq']),TOP('nobody:'+f['sq']))]
    def call_body(s,f,this,args,st,node):
        s.analysed.add(f['id'])
        fr=s.uid()
        s.stack.append((f['sq'].replace('boost::poly_collection::',''),s.p.loc((node or {}).get('loc') or f['loc'])))
        try:
            st=st.set(('this',fr),this)
            depth=len(st.ds)
            for i,p in enumerate(f['ps']):
                if i<len(args):
                    st=st.set(('v',fr,p['id']),args[i])
                    if not s.isref(p['t']): st=s.pushd(st,L(('v',fr,p['id'])),p['t'])
            s.sinks.append([])
            states=[st]; outs=[]
            if f.get('kind')=='ctor':
                st0=st
                nxt=[]
                deleg=any('d' in i for i in f.get('inits',()))
                if not deleg:
                    cur,v=s.rd(st,this) if this[0]=='L' else (st,UNDEF)
                    if not(isinstance(v,tuple) and v and v[0]=='R'):
                        st=s.wr(st,this,Rec(f['cls'],{}))
                states=[st]
                for ini in f.get('inits',()):
                    nxt=[]
                    for x in states: nxt+=s.init(ini,f,this,x,fr)
                    states=nxt
            ctry=f['body'] if 'body' in f and f.get('kind')=='ctor' and f['body']['k']=='Try' else None
            if 'body' in f:
                for x in states:
                    for o in s.ex(ctry['b'] if ctry else f['body'],x,fr,f):
                        if o[0]=='r': outs.append((o[1],o[2]))
                        else: outs.append((o[1],None))
            else: outs=[(x,None) for x in states]
            exc=s.sinks.pop()
            res=[]
            for x,v in outs:
                for y in s.unwind(x,depth): res.append((s.clean(y,fr),v))
            if f.get('kind')=='ctor' and not any('d' in i for i in f.get('inits',())):
                exc=[(y,e) for x,e in exc for y in s.unctor(x,f,this)]
            if ctry:
                # function-try-block of a constructor: the members are gone, the exception goes on
                e0=exc; exc=[]
                for x,e in e0:
                    for h in ctry['h']:
                        if 'ct' not in h or s.catches(h['ct'],e): break
                    else: exc.append((x,e)); continue
                    if 'ct' in h and 'v' in h: x=x.set(('v',fr,h['v']['id']),tok('caught'))
                    s.sinks.append([])
                    o2=s.ex(h['b'],x,fr,f)
                    ex2=s.sinks.pop()
                    exc+=[(z,e if e2==('rethrow',) else e2) for z,e2 in ex2]+[(o[1],e) for o in o2]
            for x,e in exc:
                for y in s.unwind(x,depth):
                    y=s.clean(y,fr)
                    if f.get('nx')==1:
                        s.sinks[-1].append((y.event('VIOL-NX',f['sq'],s.trace()),tok('exc','terminate')))
                    else: s.sinks[-1].append((y,e))
            return res
        finally: s.stack.pop()
    def unctor(s,st,f,this):
        R=s.p.recs.get(f['cls'])
        if R is None or not R['in'] or this is None or this[0]!='L': return [st]
        _,cur=s.rd(st,this)
        if not(isinstance(cur,tuple) and cur and cur[0]=='R'): return [st]
        states=[st]; d=dict(cur[2])
        for fd in reversed(R.get('fields',())):
            t=s.ty(fd['t'])
            if t['k']=='rec' and not s.trivial(fd['t']) and fd['id'] in d and d[fd['id']] not in(('D',),UNDEF):
                a=('L',this[1],this[2]+(fd['id'],),0)
                states=[y for x in states for y in s.destroy(x,a,t['r'])]
        # the storage is raw again
        v=('A',) if not this[2] and this[1][0] in('seg',) else UNDEF
        return [s.wr(x,this,v) for x in states]
    def clean(s,st,fr):
        dead=[o for o in st.mem if isinstance(o,tuple) and len(o)>1 and o[1]==fr and o[0] in('v','t','this')]
        return st.rm(dead) if dead else st
    def init(s,ini,f,this,st,fr):
        if 'f' in ini:
            R=s.p.recs[f['cls']]
            k=ini['f'] if R['in'] else ini['n']
            tgt=(this[0],this[1],this[2]+(k,),0) if this[0]=='L' else ('B',this[1],this[2],this[3]+(k,))
            return [x for x,_ in s.ev_into(ini['e'],st,fr,tgt,f,ini['t'])]
        if 'b' in ini or 'd' in ini:
            return [x for x,_ in s.ev_into(ini['e'],st,fr,this,f,None,base=True)]
        return [st]
    # evaluation of an initialiser into a target address
    def ev_into(s,e,st,fr,tgt,f,t,base=False):
        k=e['k']
        if t is not None and s.isref(t):
            return [(s.wr(x,tgt,v),None) for x,v in s.ev(e,st,fr,f)]
        if k in('Full',): 
            depth=len(st.ds); out=[]
            for x,_ in s.ev_into(e['e'],st,fr,tgt,f,t,base):
                out+=[(y,None) for y in s.unwind(x,depth)]
            return out
        if k=='Q': return s.ev_into(e['e'],st,fr,tgt,f,t,base)
        if k=='Ctor':
            F=s.p.fns[e['f']]
            out=[]
            if e.get('el') and len(e['a'])==1 and not base:
                a=e['a'][0]
                while a['k'] in('Tmp','Q'): a=a['e']
                if not a.get('vc'): return s.ev_into(a,st,fr,tgt,f,t)
            for x,vs in s.evs(e['a'],st,fr,f):
                out+=[(y,None) for y,_ in s.call(e['f'],tgt,vs,x,e)]
            return out
        if k=='InhCtor':
            cf=f; out=[]
            vs=[]
            x=st
            for p in cf['ps']:
                a=L(('v',fr,p['id']))
                x,v=s.rd(x,a); vs.append(v)
            return [(y,None) for y,_ in s.call(e['f'],tgt,vs,x,e)]
        if k=='Init' and s.ty(e['t'])['k']=='rec':
            c=s.cls(e['t'])
            R=s.p.recs[c]
            if not base: st=s.wr(st,tgt,Rec(c,{}))
            states=[st]
            fl=R.get('fields',[]); nb=len(R.get('bases',()))
            for i,x in enumerate(e['a']):
                nxt=[]
                for y in states:
                    if i<nb: nxt+=[z for z,_ in s.ev_into(x,y,fr,tgt,f,None,base=True)]
                    else:
                        fd=fl[i-nb]; key=fd['id'] if R['in'] else fd['n']
                        t2=(tgt[0],tgt[1],tgt[2]+(key,),0)
                        nxt+=[z for z,_ in s.ev_into(x,y,fr,t2,f,fd['t'])]
                states=nxt
            return [(x,None) for x in states]
        out=[]
        for x,v in s.ev(e,st,fr,f):
            if base:
                # prvalue record into base subobject: merge fields
                _,cur=s.rd(x,tgt)
                if isinstance(v,tuple) and v and v[0]=='R' and isinstance(cur,tuple) and cur and cur[0]=='R':
                    d=dict(cur[2]); d.update(dict(v[2])); x=s.wr(x,tgt,Rec(cur[1],d))
                elif v is not None and not(isinstance(v,tuple) and v==UNDEF): x=x.mktop('baseinit')
            else: x=s.wr(x,tgt,v)
            out.append((x,None))
        return out
    # -- destruction
    def trivial(s,t):
        t=s.ty(t)
        if t['k']!='rec': return True
        r=s.p.recs.get(t.get('r'))
        return r is None or bool(r.get('tdtor'))
    def pushd(s,st,addr,t):
        if s.trivial(t): return st
        return st.cp(ds=st.ds+((addr,s.cls(t)),))
    def unwind(s,st,depth):
        states=[st]
        while True:
            nxt=[];ch=False
            for x in states:
                if len(x.ds)>depth:
                    ch=True
                    a,c=x.ds[-1]
                    y=x.cp(ds=x.ds[:-1])
                    nxt+=s.destroy(y,a,c)
                else: nxt.append(x)
            states=nxt
            if not ch: return states
    def destroy(s,st,addr,cls):
        """run the destructor of the object of static class cls at addr"""
        R=s.p.recs.get(cls)
        if R is None or R.get('tdtor'): return [st]
        m=s.models.get('~'+R['sq'])
        if m is not None: return m(s,R,addr,st)
        states=[st]
        d=R.get('dtor'); F=s.p.fns.get(d) if d else None
        if F is not None and 'body' in F and F['body'].get('s'):
            states=[x for x,_ in s.call_body(F,addr,[],st,None)]
        if not R['in']: return states
        for fd in reversed(R.get('fields',())):
            t=s.ty(fd['t'])
            if t['k']=='rec' and not s.trivial(fd['t']):
                a=(addr[0],addr[1],addr[2]+(fd['id'],),0)
                states=[y for x in states for y in s.destroy(x,a,t['r'])]
        for b in R.get('bases',()):
            states=[y for x in states for y in s.destroy(x,addr,b['r'])]
        return states
    def destroy_full(s,st,addr,cls):
        return [s.wr(x,addr,('D',)) for x in s.destroy(st,addr,cls)]
    # -- expressions
    def evs(s,es,st,fr,f):
        res=[(st,[])]
        for e in es:
            nxt=[]
            for x,vs in res:
                for y,v in s.ev(e,x,fr,f): nxt.append((y,vs+[v]))
            res=nxt
        return res
    def ev(s,e,st,fr,f):
        s.tick()
        return getattr(s,'e_'+e['k'],s.e_unknown)(e,st,fr,f)
    def e_unknown(s,e,st,fr,f):
        s.undecided.append('expr '+e['k']+' '+str(e.get('c')))
        return [(st.mktop('expr:'+e['k']),TOP(e['k']))]
    def e_Full(s,e,st,fr,f):
        depth=len(st.ds); out=[]
        s.sinks.append([])
        rs=s.ev(e['e'],st,fr,f)
        exc=s.sinks.pop()
        for x,v in rs: out+=[(y,v) for y in s.unwind(x,depth)]
        for x,v in exc:
            for y in s.unwind(x,depth): s.sinks[-1].append((y,v))
        return out
    def e_Q(s,e,st,fr,f): return s.ev(e['e'],st,fr,f)
    def e_Int(s,e,st,fr,f):
        if s.ty(e['t'])['k']=='bool': return [(st,bool(e['v']))]
        return [(st,Aff(e['v']))] if 'v' in e else [(st.mktop('int'),TOP('int'))]
    def e_Flt(s,e,st,fr,f): return [(st,tok('flt',str(e['v'])))]
    def e_Str(s,e,st,fr,f): return [(st,tok('str'))]
    def e_Null(s,e,st,fr,f): return [(st,NULL)]
    def e_Zero(s,e,st,fr,f):
        k=s.ty(e['t'])['k']
        if k=='int': return [(st,ZERO)]
        if k=='bool': return [(st,False)]
        if k in('ptr','nullptr'): return [(st,NULL)]
        if k=='rec': return [(st,Rec(s.cls(e['t']),{}))]
        return [(st,UNDEF)]
    def e_This(s,e,st,fr,f): return [(st,st.mem.get(('this',fr),TOP('this')))]
    def e_Fn(s,e,st,fr,f): return [(st,('F',e['f']))]
    def e_Var(s,e,st,fr,f):
        vi=s.p.vars.get(e['id'])
        if e.get('cap'):
            clo=st.mem.get(('this',fr))
            if clo and clo[0]=='L':
                _,c=s.rd(st,clo)
                if isinstance(c,tuple) and c[0]=='R':
                    x=rget(c,('cap',e['id']),None)
                    if x is not None:
                        if x[0]=='ref': return [(st,x[1])]
                        return [(st,(clo[0],clo[1],clo[2]+(('cap',e['id']),1),0))] if False else [(st,L(clo[1],clo[2]+(('capv',e['id']),)))]
        oid=('v',fr,e['id'])
        if oid in st.mem:
            if s.isvarref(e,f,vi): return [s.rd(st,L(oid))]
            return [(st,L(oid))]
        g=('g',e['id'])
        if g in st.mem: return [(st,L(g))]
        if vi and vi.get('g'):
            if g not in st.mem:
                st=st.set(g,tok('glob',vi['n']))
                if 'init' in vi:
                    rs=s.ev_into(vi['init'],st,fr,L(g),f,vi['t']) if not s.isref(vi['t']) else None
                    if rs: st=rs[0][0]
            return [(st,L(g))]
        return [(st.mktop('var:'+e['n']),TOP('var:'+e['n']))]
    def isvarref(s,e,f,vi):
        t=vi['t'] if vi and 't' in vi else None
        if t is None:
            for p in f['ps']:
                if p['id']==e['id']: t=p['t']
        return t is not None and s.isref(t)
    def fkey(s,e):
        R=s.p.recs.get(e.get('cls'))
        return e['f'] if R and R['in'] else e['n']
    def sub(s,a,k):
        if a[0]=='L': return ('L',a[1],a[2]+(k,),0)
        if a[0]=='B': return ('B',a[1],a[2],a[3]+(k,))
        return TOP('sub')
    def rawstorage(s,e):
        # a class whose only member is a byte buffer is identified with its contents
        R=s.p.recs.get(e.get('cls'))
        if not R or not R['in'] or len(R.get('fields',()))!=1: return False
        fd=R['fields'][0]
        t=s.ty(fd['t'])
        if t['k']=='arr' and not R.get('bases'): return 'char' in t['s'] or 'byte' in t['s']
        return t['k']=='rec' and 'aligned_storage' in t['s']
    def mat(s,st,v,t):
        """address for a prvalue"""
        oid=('t','m',s.uid())
        return st.set(oid,v),L(oid)
    def e_Fld(s,e,st,fr,f):
        out=[]
        for x,b in s.ev(e['b'],st,fr,f):
            if not e.get('arrow') and not e['b'].get('vc'):
                x,b=s.mat(x,b,e['b']['t'])
            if istop(b): out.append((x,b)); continue
            if s.rawstorage(e): out.append((x,b)); continue
            a=s.sub(b,s.fkey(e))
            # reference members hold an address
            R=s.p.recs.get(e.get('cls')); ft=None
            for fd in (R or {}).get('fields',()):
                if fd['id']==e['f']: ft=fd['t']
            if ft is not None and s.isref(ft): out.append(s.rd(x,a))
            else: out.append((x,a))
        return out
    def e_Ld(s,e,st,fr,f):
        out=[]
        for x,a in s.ev(e['e'],st,fr,f):
            if istop(a): out.append((x,a)); continue
            out.append(s.rd(x,a))
        return out
    def e_Tmp(s,e,st,fr,f):
        oid=('t',fr,s.uid()); a=L(oid); out=[]
        for x,_ in s.ev_into(e['e'],st,fr,a,f,None):
            if not e.get('ext'): x=s.pushd(x,a,e['t'])
            out.append((x,a))
        return out
    def e_Cast(s,e,st,fr,f):
        ck=e['ck']; out=[]
        if ck=='ToVoid': return [(x,None) for x,_ in s.ev(e['e'],st,fr,f)]
        for x,v in s.ev(e['e'],st,fr,f):
            if ck in('NoOp','BitCast','LValueBitCast','ArrayToPointerDecay','FunctionToPointerDecay'):
                if ck=='ArrayToPointerDecay' and isinstance(v,tuple) and v[0]=='L': pass
                out.append((x,v))
            elif ck in('DerivedToBase','UncheckedDerivedToBase','BaseToDerived'):
                off=e.get('off',0)
                if isinstance(v,tuple) and v[0]=='B' and not v[3]: v=B(v[1],v[2]+off)
                elif isinstance(v,tuple) and v[0]=='L' and not v[2]:
                    val=x.mem.get(v[1])
                    if isinstance(val,tuple) and val[:2]==('T','val'): v=L(v[1],(),v[3]+off)
                out.append((x,v))
            elif ck=='Dynamic':
                if s.ty(e['t'])['k']=='ptr' and s.ty(s.ty(e['t'])['p'])['k']=='void':
                    if v[0]=='L': v=L(v[1],v[2],0)
                    elif v[0]=='B':
                        o=s.elem(x,v)
                        if o: v=B(v[1],v[2]-o[3])
                    out.append((x,v))
                else: out.append((x.mktop('dyncast'),TOP('dyncast')))
            elif ck=='IntegralCast':
                if v is True: v=ONE
                if v is False: v=ZERO
                if isinstance(v,tuple) and v and v[0]=='c':
                    for y,b in s.branch(x,v): out.append((y,ONE if b else ZERO))
                    continue
                if s.mon is not None and isinstance(v,Aff) and not v.isconst(): x=s.mon.narrow(x,e,v)
                out.append((x,v))
            elif ck in('IntegralToBoolean','PointerToBoolean'):
                if isinstance(v,Aff): v=('c','!=0',v)
                elif v==NULL: v=False
                elif isinstance(v,tuple) and v[0] in('L','B','F'): v=True
                out.append((x,v))
            elif ck=='IntegralToPointer' or ck=='PointerToIntegral': out.append((x,v))
            elif ck=='MemberPointerToBoolean': out.append((x,True))
            else: out.append((x.mktop('cast:'+ck),TOP('cast:'+ck)))
        return out
    def touching(s,a,b,x):
        """may the end of one allocation and the beginning of another be the same address here?"""
        vs=s.vecs(x)
        for p,q in((a,b),(b,a)):
            v=vs.get(p[1]); w=vs.get(q[1])
            if v is None or w is None: continue
            e=v[1][2].scale(v[1][4])-p[2]; o=q[2]-q[2].c%w[1][4]
            sub=p[2].c%v[1][4]
            if x.cons.possible(-e-sub) and x.cons.possible(-o): return True
        return False
    def cmp(s,op,a,b,x):
        """comparison of two values -> condition"""
        if isinstance(a,bool): a=ONE if a else ZERO
        if isinstance(b,bool): b=ONE if b else ZERO
        if isinstance(a,Aff) and isinstance(b,Aff):
            d=a-b
            return {'==':('c','==0',d),'!=':('c','!=0',d),'<':('c','>=0',b-a-1),'<=':('c','>=0',b-a),'>':('c','>=0',a-b-1),'>=':('c','>=0',a-b)}[op]
        if isinstance(a,tuple) and isinstance(b,tuple):
            if a[0]=='c' and b[0]=='c' : return TOP('cmpcond')
            if a[0]=='B' and b[0]=='B' and a[1]==b[1] and a[3]==b[3]: return s.cmp(op,a[2],b[2],x)
            if s.mon is not None and op in('==','!=') and a[0]=='B' and b[0]=='B' and a[1]!=b[1] and s.touching(a,b,x):
                c=('c','op',tok('eq',*sorted((a,b),key=str)))
                return c if op=='==' else ('c','not',c)
            if op in('==','!='):
                if a[0]=='?' or b[0]=='?': return TOP('cmp')
                if a[0]=='T' or b[0]=='T':
                    if a==b: return op=='=='
                    if a[:1]!=('T',) or b[:1]!=('T',): return TOP('cmptok')
                    c=('c','op',tok('eq',*sorted((a,b),key=str)))
                    return c if op=='==' else ('c','not',c)
                if a==UNDEF or b==UNDEF: return TOP('undef')
                return (a==b) if op=='==' else (a!=b)
        return TOP('cmp')
    def arith(s,op,a,b,t,st):
        """-> (st,value)"""
        if isinstance(a,bool): a=ONE if a else ZERO
        if isinstance(b,bool): b=ONE if b else ZERO
        if isinstance(a,Aff) and isinstance(b,Aff):
            if op=='+': return st,a+b
            if op=='-': return st,a-b
            if op=='*':
                r=a*b
                if r is not None: return st,r
                return st,s.fresh('m')
            if op=='/':
                if b.isconst() and b.c>0:
                    d=a.divexact(b.c)
                    if d is not None: return st,d
                    q=s.fresh('q')
                    if st.cons.entails(a):
                        st=st.assume(a-q.scale(b.c)).assume(q.scale(b.c)+(b.c-1)-a)
                        return st,q
                    return st,q
                return st,s.fresh('q')
            if op=='%':
                q=s.fresh('q')
                if b.isconst() and b.c>0 and st.cons.entails(a): st=st.assume(q).assume(b-1-q)
                return st,q
            if op in('<<','>>','&','|','^'):
                if a.isconst() and b.isconst():
                    return st,Aff({'<<':a.c<<b.c,'>>':a.c>>b.c,'&':a.c&b.c,'|':a.c|b.c,'^':a.c^b.c}[op])
                q=s.fresh('w')
                if op=='>>' and b.isconst() and st.cons.entails(a):
                    k=1<<b.c
                    st=st.assume(a-q.scale(k)).assume(q.scale(k)+(k-1)-a)
                return st,q
        return st.mktop('arith'),TOP('arith')
    def ptradd(s,p,n,esz):
        if p[0]=='B' and not p[3]: return B(p[1],p[2]+n.scale(esz))
        if p[0] in('L','N') and n==ZERO: return p
        return TOP('ptradd')
    def psz(s,t):
        t=s.ty(t)
        z=s.size(t['p'])
        return z if z is not None else 1
    def e_Bin(s,e,st,fr,f):
        op=e['op']; out=[]
        if op in('&&','||'):
            for x,a in s.ev(e['a'],st,fr,f):
                for y,b in s.branch(x,a):
                    if b==(op=='||'): out.append((y,b))
                    else:
                        for z,c in s.ev(e['b'],y,fr,f):
                            if isinstance(c,bool): out.append((z,c))
                            else: out+=[(w,d) for w,d in s.branch(z,c)]
            return out
        if op==',':
            for x,_ in s.ev(e['a'],st,fr,f): out+=s.ev(e['b'],x,fr,f)
            return out
        if op=='=':
            for x,b in s.ev(e['b'],st,fr,f):
                for y,a in s.ev(e['a'],x,fr,f): out.append((s.wr(y,a,b),a))
            return out
        for x,a in s.ev(e['a'],st,fr,f):
            for y,b in s.ev(e['b'],x,fr,f):
                if op in('==','!=','<','<=','>','>='):
                    out.append((y,s.cmp(op,a,b,y))); continue
                if op.endswith('=') :
                    o=op[:-1]
                    y,cur=s.rd(y,a)
                    y,r=s.binop(o,cur,b,e['a']['t'],e['b']['t'],y)
                    out.append((s.wr(y,a,r),a)); continue
                y,r=s.binop(op,a,b,e['a']['t'],e['b']['t'],y)
                out.append((y,r))
        return out
    def binop(s,op,a,b,ta,tb,st):
        ka,kb=s.ty(ta)['k'],s.ty(tb)['k']
        if istop(a) or istop(b): return st.mktop('binop'),TOP('binop')
        if ka in('ptr','arr') and kb=='int' and isinstance(b,Aff):
            r=s.ptradd(a,b if op=='+' else -b,s.psz(ta))
            return (st.mktop('ptr %r %r'%(a,b)),r) if istop(r) else (st,r)
        if kb in('ptr','arr') and ka=='int' and isinstance(a,Aff):
            r=s.ptradd(b,a,s.psz(tb))
            return (st.mktop('ptr %r %r'%(a,b)),r) if istop(r) else (st,r)
        if ka=='ptr' and kb=='ptr' and op=='-':
            if a[0]=='B' and b[0]=='B' and a[1]==b[1]:
                d=(a[2]-b[2]).divexact(s.psz(ta))
                if d is not None: return st,d
                return st.mktop('ptrdiff'),TOP('ptrdiff')
            if a[0]=='B' and b[0]=='B': return st.event('VIOL','difference of pointers into different allocations',s.where()),TOP('ptrdiff')
            if a==b: return st,ZERO
            return st.mktop('ptrdiff'),TOP('ptrdiff')
        return s.arith(op,a,b,ta,st)
    def e_Un(s,e,st,fr,f):
        op=e['op']; out=[]
        for x,v in s.ev(e['e'],st,fr,f):
            if op in('*','&'):
                if op=='*' and v==NULL: x=x.event('VIOL','dereference of a null pointer',s.p.loc(e.get('loc'))); v=TOP('null')
                out.append((x,v)); continue
            if op=='!':
                if isinstance(v,bool): out.append((x,not v))
                elif isinstance(v,Aff): out.append((x,('c','==0',v)))
                elif istop(v): out.append((x,v))
                elif v==NULL: out.append((x,True))
                elif isinstance(v,tuple) and v[0]=='c': out.append((x,('c','not',v)))
                else: out.append((x,False))
                continue
            if op in('++','--'):
                x,cur=s.rd(x,v)
                x,n=s.binop('+' if op=='++' else '-',cur,ONE,e['e']['t'],s.inttype(),x)
                x=s.wr(x,v,n)
                out.append((x,cur if e.get('post') else v)); continue
            if op=='-' and isinstance(v,Aff): out.append((x,-v)); continue
            if op=='+': out.append((x,v)); continue
            out.append((x.mktop('un'+op),TOP('un')))
        return out
    def inttype(s):
        if not hasattr(s,'_it'):
            s._it=next(i for i,t in enumerate(s.p.types) if t and t['k']=='int')
        return s._it
    def e_Idx(s,e,st,fr,f):
        out=[]
        for x,b in s.ev(e['b'],st,fr,f):
            for y,i in s.ev(e['i'],x,fr,f):
                if isinstance(b,tuple) and b[0]=='B' and isinstance(i,Aff):
                    out.append((y,s.ptradd(b,i,s.psz(e['b']['t']))))
                elif isinstance(b,tuple) and b[0]=='L' and i==ZERO: out.append((y,b))
                else: out.append((y.mktop('idx'),TOP('idx')))
        return out
    def e_Cond(s,e,st,fr,f):
        out=[]
        for x,c in s.ev(e['c'],st,fr,f):
            for y,b in s.branch(x,c):
                out+=s.ev(e['a'] if b else e['b'],y,fr,f)
        return out
    def e_Init(s,e,st,fr,f):
        t=s.ty(e['t'])
        if t['k']=='rec':
            oid=('t',fr,s.uid())
            out=[]
            for x,_ in s.ev_into(e,st,fr,L(oid),f,None):
                x,v=s.rd(x,L(oid)); out.append((x.rm([oid]),v))
            return out
        if t['k']=='arr':
            return [(x,tok('arr',*vs)) for x,vs in s.evs(e['a'],st,fr,f)]
        if len(e['a'])==1: return s.ev(e['a'][0],st,fr,f)
        if not e['a']: return s.e_Zero(e,st,fr,f)
        return s.e_unknown(e,st,fr,f)
    def e_StdInit(s,e,st,fr,f):
        return [(x,tok('initlist',v)) for x,v in s.ev(e['e'],st,fr,f)]
    def e_Ctor(s,e,st,fr,f):
        oid=('t',fr,s.uid()); out=[]
        for x,_ in s.ev_into(e,st,fr,L(oid),f,None):
            x,v=s.rd(x,L(oid)); out.append((x.rm([oid]),v))
        return out
    def e_InhCtor(s,e,st,fr,f): return s.e_Ctor(e,st,fr,f)
    def e_Lambda(s,e,st,fr,f):
        d={}
        states=[(st,d)]
        for c in e['caps']:
            nxt=[]
            for x,dd in states:
                if 'this' in c:
                    d2=dict(dd); d2['capthis']=x.mem.get(('this',fr)); nxt.append((x,d2)); continue
                if 'e' not in c: nxt.append((x,dd)); continue
                for y,v in s.ev(c['e'],x,fr,f):
                    d2=dict(dd)
                    d2[('cap',c['id'])]=('ref',v) if c.get('ref') else ('val',)
                    if not c.get('ref'): d2[('capv',c['id'])]=v
                    nxt.append((y,d2))
            states=nxt
        return [(x,Rec(e['cls'],dd)) for x,dd in states]
    def e_Typeid(s,e,st,fr,f):
        if 'tt' in e:
            return [(st,L(('ti',s.uq(e['tt']),0)))]
        out=[]
        for x,v in s.ev(e['e'],st,fr,f):
            if e.get('dyn'): out.append((x,s.dyn_ti(x,v)))
            else: out.append((x,L(('ti',s.uq(e['e']['t']),0))))
        return out
    def uq(s,t):
        x=s.p.tstr(t)
        return x[6:] if x.startswith('const ') and s.ty(t)['k']!='ptr' else x
    def dyn_ti(s,st,a):
        if a[0]=='L':
            v=st.mem.get(a[1])
            if not a[2] and isinstance(v,tuple) and v[:2]==('T','val'): return L(('ti',v[3],v[4] if len(v)>4 else 0))
            c=s.dynclass(st,a)
            if c is not None: return L(('ti',s.p.recs[c]['s'],0))
        if a[0]=='B':
            o=s.elem(st,a)
            if o:
                return L(('ti',s.elemtype(o[1]),0))
        return TOP('typeid')
    def elemtype(s,v):
        """concrete element type name of a vector of holders"""
        t=s.ty(v[5]); r=s.p.recs.get(t.get('r'))
        if r and r['sq'].endswith('value_holder') and r.get('ta'): return s.p.tstr(r['ta'][0]['t'])
        return t['s']
    def e_Throw(s,e,st,fr,f):
        if 'e' not in e:
            s.throw(st,('rethrow',)); return []
        for x,v in s.ev(e['e'],st,fr,f):
            s.throw(x,tok('exc',s.p.tstr(e['e']['t']),v,s.p.loc(e.get('loc'))))
        return []
    def e_New(s,e,st,fr,f):
        out=[]
        for x,pl in s.evs(e['pl'],st,fr,f):
            if len(pl)!=1: out.append((x.mktop('new'),TOP('new'))); continue
            p=pl[0]
            if istop(p): out.append((x.mktop('newp'),p)); continue
            t=s.ty(e['at'])
            m=s.models.get('#new')
            if m is not None:
                r=m(s,e,p,x,fr,f)
                if r is not NotImplemented: out+=r; continue
            if 'e' in e:
                for y,_ in s.ev_into(e['e'],x,fr,p,f,None): out.append((y,p))
            else: out.append((s.wr(x,p,UNDEF),p))
        return out
    def e_Delete(s,e,st,fr,f):
        return [(x.mktop('delete'),None) for x,v in s.ev(e['e'],st,fr,f)]
    def e_PDtor(s,e,st,fr,f):
        return [(x,None) for x,v in s.ev(e['e'],st,fr,f)]
    def e_Call(s,e,st,fr,f):
        out=[]
        if 'f' in e:
            for x,vs in s.evs(e['a'],st,fr,f): out+=s.call(e['f'],None,vs,x,e)
            return out
        for x,c in s.ev(e['fe'],st,fr,f):
            while isinstance(c,tuple) and c[0]=='L': 
                x,c=s.rd(x,c)
            for y,vs in s.evs(e['a'],x,fr,f):
                if isinstance(c,tuple) and c[0]=='F': out+=s.call(c[1],None,vs,y,e)
                else: out.append((y.mktop('fptr'),TOP('fptr')))
        return out
    def e_MCall(s,e,st,fr,f):
        out=[]
        if 'f' not in e: return s.e_unknown(e,st,fr,f)
        F=s.p.fns[e['f']]
        for x,o in s.ev(e['o'],st,fr,f) if 'o' in e else [(st,None)]:
            if 'o' in e and not e.get('arrow') and not e['o'].get('vc'):
                x,o=s.mat(x,o,e['o']['t'])
                x=s.pushd(x,o,e['o']['t'])
            for y,vs in s.evs(e['a'],x,fr,f):
                fid=e['f']
                if e.get('virt') and F.get('kind')!='dtor':
                    c=s.dynclass(y,o) if isinstance(o,tuple) and o[0] in('L','B') else None
                    g=s.p.override(c,fid) if c is not None else None
                    if g is None and s.models.get(F['sq']) is None:
                        out.append((y.mktop('virt:'+F['sq']),TOP('virt'))); continue
                    if g is not None: fid=g
                out+=s.call(fid,o,vs,y,e)
        return out
    # -- statements; outcomes ('n',st) ('r',st,v) ('b',st) ('c',st)
    def ex(s,n,st,fr,f):
        if n is None: return [('n',st)]
        s.tick()
        return getattr(s,'s_'+n['k'],s.s_unknown)(n,st,fr,f)
    def s_unknown(s,n,st,fr,f):
        s.undecided.append('stmt '+str(n.get('c',n['k'])))
        return [('n',st.mktop('stmt:'+n['k']))]
    def s_Null(s,n,st,fr,f): return [('n',st)]
    def s_Break(s,n,st,fr,f): return [('b',st)]
    def s_Continue(s,n,st,fr,f): return [('c',st)]
    def s_Expr(s,n,st,fr,f):
        depth=len(st.ds); out=[]
        s.sinks.append([])
        rs=s.ev(n['e'],st,fr,f)
        exc=s.sinks.pop()
        for x,_ in rs: out+=[('n',y) for y in s.unwind(x,depth)]
        for x,v in exc:
            for y in s.unwind(x,depth): s.sinks[-1].append((y,v))
        return out
    def s_Return(s,n,st,fr,f):
        if 'e' not in n: return [('r',st,None)]
        depth=len(st.ds); out=[]
        s.sinks.append([])
        rs=s.ev(n['e'],st,fr,f)
        exc=s.sinks.pop()
        for x,v in rs:
            for y in s.unwind(x,depth): out.append(('r',y,v))
        for x,v in exc:
            for y in s.unwind(x,depth): s.sinks[-1].append((y,v))
        return out
    def s_Block(s,n,st,fr,f):
        depth=len(st.ds)
        s.sinks.append([])
        cur=[st]; outs=[]
        for k in n['s']:
            nxt=[]
            for x in cur:
                for o in s.ex(k,x,fr,f):
                    if o[0]=='n': nxt.append(o[1])
                    else: outs.append(o)
            cur=s.dedupe(nxt)
        outs+=[('n',x) for x in cur]
        exc=s.sinks.pop()
        res=[]
        for o in outs:
            if len(o[1].ds)==depth: res.append(o)
            else:
                for y in s.unwind(o[1],depth): res.append((o[0],y)+o[2:])
        for x,v in exc:
            for y in s.unwind(x,depth): s.sinks[-1].append((y,v))
        return res
    def dedupe(s,sts):
        if len(sts)<2: return sts
        out=[]
        for x in sts:
            if any(x.mem==y.mem and x.cons.s==y.cons.s and x.ev==y.ev and x.ds==y.ds and x.facts==y.facts and x.top==y.top for y in out): continue
            out.append(x)
        return out
    def s_Decl(s,n,st,fr,f):
        states=[st]
        for v in n['v']:
            nxt=[]
            oid=('v',fr,v['id'])
            for x in states:
                if v.get('static'):
                    g=('g',v['id'])
                    if g in x.mem: nxt.append(x); continue
                    if 'e' not in v: nxt.append(x.set(g,UNDEF)); continue
                    nxt+=[y for y,_ in s.ev_into(v['e'],x.set(g,UNDEF),fr,L(g),f,v['t'])]
                    continue
                if 'e' not in v: nxt.append(x.set(oid,UNDEF)); continue
                depth=len(x.ds)
                s.sinks.append([])
                if s.isref(v['t']):
                    rs=[(y.set(oid,a),None) for y,a in s.ev(v['e'],x,fr,f)]
                else:
                    rs=s.ev_into(v['e'],x.set(oid,UNDEF),fr,L(oid),f,v['t'])
                exc=s.sinks.pop()
                for y,_ in rs:
                    for z in s.unwind(y,depth):
                        if not s.isref(v['t']): z=s.pushd(z,L(oid),v['t'])
                        nxt.append(z)
                for y,ex in exc:
                    for z in s.unwind(y,depth): s.sinks[-1].append((z,ex))
            states=nxt
        return [('n',x) for x in states]
    def s_If(s,n,st,fr,f):
        states=[st]; out=[]
        if n.get('i'): states=[o[1] for x in states for o in s.ex(n['i'],x,fr,f)]
        if n.get('cv'): states=[o[1] for x in states for o in s.s_Decl({'v':[n['cv']]},x,fr,f)]
        for x in states:
            for y,b in s.cond(n['c'],x,fr,f):
                k=n['a'] if b else n['b']
                out+=s.ex(k,y,fr,f) if k else [('n',y)]
        return out
    def cond(s,e,st,fr,f):
        depth=len(st.ds); out=[]
        s.sinks.append([])
        for x,c in s.ev(e,st,fr,f):
            for y,b in s.branch(x,c): out.append((y,b))
        exc=s.sinks.pop()
        res=[]
        for y,b in out:
            for z in s.unwind(y,depth): res.append((z,b))
        for x,v in exc:
            for y in s.unwind(x,depth): s.sinks[-1].append((y,v))
        return res
    def s_Try(s,n,st,fr,f):
        depth=len(st.ds)
        s.sinks.append([])
        outs=s.ex(n['b'],st,fr,f)
        exc=s.sinks.pop()
        for x,e in exc:
            for y in s.unwind(x,depth):
                h=n['h'][0]
                if len(n['h'])>1 or 'ct' in h:
                    # typed handlers: matched only for exceptions thrown by class
                    done=False
                    for h in n['h']:
                        if 'ct' not in h or s.catches(h['ct'],e):
                            done=True; break
                    if not done: s.sinks[-1].append((y,e)); continue
                    if 'ct' in h: y=y.set(('v',fr,h['v']['id']),tok('caught'))
                s.sinks.append([])
                o2=s.ex(h['b'],y,fr,f)
                ex2=s.sinks.pop()
                for z,e2 in ex2: s.sinks[-1].append((z,e if e2==('rethrow',) else e2))
                outs+=o2
        return outs
    def catches(s,t,e):
        want=s.uq(s.ty(t)['p'] if s.isref(t) else t)
        return e[:2]==('T','exc') and len(e)>2 and e[1+1-1] and e[2]==want or e[1]==want
    def s_Switch(s,n,st,fr,f): return s.s_unknown(n,st,fr,f)
    def s_For(s,n,st,fr,f):
        if n.get('i'):
            depth=len(st.ds)
            s.sinks.append([])
            outs=[]
            for o in s.ex(n['i'],st,fr,f):
                outs+=s.loop(n,o[1],fr,f,False)
            exc=s.sinks.pop()
            res=[]
            for o in outs:
                for y in s.unwind(o[1],depth): res.append((o[0],y)+o[2:])
            for x,v in exc:
                for y in s.unwind(x,depth): s.sinks[-1].append((y,v))
            return res
        return s.loop(n,st,fr,f,False)
    def s_Do(s,n,st,fr,f): return s.loop(n,st,fr,f,True)
    def body_once(s,n,st,fr,f):
        """body+increment: (next heads, exits)"""
        heads=[];exits=[]
        for o in s.ex(n['b'],st,fr,f):
            if o[0] in('n','c'):
                if n.get('n'):
                    for p in s.s_Expr({'e':n['n']},o[1],fr,f): heads.append(p[1])
                else: heads.append(o[1])
            elif o[0]=='b': exits.append(('n',o[1]))
            else: exits.append(o)
        return heads,exits
    def guard(s,n,st,fr,f):
        """(enter states, leave states)"""
        if n.get('c') is None: return [st],[]
        en=[];le=[]
        for x,b in s.cond(n['c'],st,fr,f): (en if b else le).append(x)
        return en,le
    def loop(s,n,st,fr,f,do):
        from accel import accelerate
        outs=[]; heads=[st]
        if do:
            h,e=s.body_once(n,st,fr,f); outs+=e; heads=h
        it=0
        heads=[(x,0) for x in heads]
        while heads:
            x,k=heads.pop()
            en,le=s.guard(n,x,fr,f)
            if s.unroll and k<s.unroll:
                outs+=[('n',y) for y in le]
                for y in en:
                    h,e=s.body_once(n,y,fr,f); outs+=e
                    for z in h: stop(outs,heads,x,z,k)
                continue
            if en and not le and len(en)==1 and k<16:
                s.sinks.append([])
                h,e=s.body_once(n,en[0],fr,f)
                exc=s.sinks.pop()
                if len(h)<2:
                    s.sinks[-1]+=exc; outs+=e
                    for z in h: stop(outs,heads,x,z,k)
                    continue
            if not en:
                outs+=[('n',y) for y in le]; continue
            # undecided: accelerate from this head
            if s.multi:
                from multi import accelerate_multi
                outs+=accelerate_multi(s,n,x,fr,f)
            else: outs+=accelerate(s,n,x,fr,f)
        return outs
