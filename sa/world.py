"""Abstract initial states: collections of symbolic contents."""
import sys,os
from poly import *
from interp import *
import stdmodels
from ir import Prog,strip
from stdmodels import mp,maps
KINDS=('base','function','any')
def find_ptr(v,buf=None):
    if isinstance(v,tuple):
        if len(v)==4 and v[0]=='B' and (buf is None or v[1]==buf): return v
        for x in v:
            if isinstance(x,tuple):
                r=find_ptr(x,buf)
                if r is not None: return r
    return None
class World:
    def __init__(s,prog,steps=3000000):
        s.p=prog
        s.I=Interp(prog,stdmodels.M,steps)
        s.entry={}
        for f in prog.fns.values():
            q=f['sq']
            if f['q'].startswith('whole<') or f['q'].startswith('ops<') or f['q'].startswith('cops<') or f['q'].startswith('vops<'):
                cls=q.split('::')[0]; nm=f['n']
                T=''
                if cls in('ops','cops'):
                    r=prog.recs.get(f['cls'])
                    T=prog.tstr(r['ta'][1]['t']).replace('vt::','')
                s.entry[(cls,T,nm)]=f
            elif f['q'].startswith('algs<'):
                a=f['q'][5:f['q'].rindex('>::')]
                d=0; parts=['']
                for c in a:
                    d+=(c=='<')-(c=='>')
                    if c==',' and d==0: parts.append('')
                    else: parts[-1]+=c
                s.entry[('algs',','.join(x.strip().replace('vt::','') for x in parts[1:]),f['n'])]=f
        f=s.entry.get(('whole','','make_al'))
        R=prog.recs.get(s.I.cls(f['ps'][0]['t'])) if f else None
        s.traits={}
        if R and R['sq']=='vt::alloc':
            b=[a.get('i',0) for a in R['ta'][1:4]]
            for n,v in zip(('copy_assignment','move_assignment','swap'),b): s.traits['propagate_on_container_'+n]=bool(v)
        s.I.traits=s.traits
        s.soccc=bool(prog.byname.get('vt::alloc::select_on_container_copy_construction'))
    def fn(s,cls,nm,T=''): return s.entry[(cls,T,nm)]
    def run(s,cls,nm,args,st,T=''):
        """-> (normal results [(st,value)], exceptional [(st,exc)])"""
        f=s.fn(cls,nm,T)
        s.I.sinks=[[]]; s.I.stack=[]
        out=s.I.call(f['id'],None,args,st,None)
        return [s.solve(s.tidy(x),v) for x,v in out if not x.dead()],[s.solve(s.tidy(x),e) for x,e in s.I.sinks[0] if not x.dead()]
    def solve(s,st,v):
        """eliminate loop counters and other auxiliary symbols fixed by an equation"""
        st=st.set(('ret',),('SNAP',v))
        for a in st.cons.s:
            # symbols fixed to a constant by two inequalities
            if len(a.t)==1 and abs(a.t[0][1])==1 and -a in st.cons.s:
                w,k=a.t[0]
                live=vsyms((tuple(st.mem.values()),st.ev),set())
                if w in live: st=st.subst({w:Aff.of(-a.c*k)})
        for _ in range(12):
            live=vsyms((tuple(st.mem.values()),st.ev),set())
            for a in st.cons.s:
                if a.t and -a in st.cons.s:
                    c=[(w,k) for w,k in a.t if abs(k)==1 and w in live and w[0] in 'thjqk' and w[1:].isdigit()]
                    if c:
                        w,k=max(c); st=st.subst({w:(Aff(0,((w,k),))-a).scale(k)}); break
            else: break
        v=st.mem[('ret',)][1]
        st=st.rm([('ret',)])
        live=vsyms((tuple(st.mem.values()),st.ev,v),set())
        # equations defining symbols that are no longer mentioned
        drop={a for a in st.cons.s if not a.t or -a in st.cons.s and any(w not in live for w,_ in a.t)}
        return st.cp(cons=Cons(st.cons.s-drop)),v
    def tidy(s,st):
        for a,v in s.I.vecs(st).values():
            if len(v[6])>1:
                z=znorm(v[6],st.cons)
                if len(z)<len(v[6]): st=s.I.wr(st,a,v[:6]+(z,)+v[7:])
        return st.rm([o for o in st.mem if isinstance(o,tuple) and (o[0] in('t','v','this','slot') or st.mem[o]==('FREED',))])
    def empty(s,st,name,al='A'):
        """an empty collection object ('u',name)"""
        f=s.fn('whole','make_al')
        alc=s.I.cls(f['ps'][0]['t'])
        st,aa=s.I.mat(st,Rec(alc,{'id':tok('al',al)}),None)
        ok,ex=s.run('whole','make_al',[aa],st)
        ok=[x for x in ok if not x[0].dead()]
        if len(ok)!=1: raise Exception('cannot build an empty collection')
        x,v=ok[0]
        return x.set(('u',name),v).rm([aa[1]])
    # ---- general states ----------------------------------------------------
    def segs(s,st,name):
        """[(type name, node, seg object)] in map order"""
        out=[]
        for a,m in maps(st):
            if a[1]!=('u',name): continue
            for nd in m[1]:
                r=st.mem.get(nd)
                if not(isinstance(r,tuple) and r[0]=='R'): continue
                sec=rget(r,'second')
                if not(isinstance(sec,tuple) and sec[0]=='R'): continue
                p=None
                for k,v in sec[2]:
                    if isinstance(v,tuple) and v[:1]==('U',): p=v[1]
                ti=stdmodels.tiname(rget(r,'first'))
                out.append((ti,nd,p[1] if p and p[0]=='L' else None))
        return out
    def seg_of(s,st,name,T):
        for ti,nd,o in s.segs(st,name):
            if ti=='vt::'+T: return nd,o
        return None,None
    def stores(s,st,o):
        """(store vector address, vector, index address, vector) of a segment object"""
        sa=sv=ia=iv=None
        for b,(a,v) in s.I.vecs(st).items():
            if a[1]!=o: continue
            if stdmodels.holder(s.I,v[5]): sa,sv=a,v
            else: ia,iv=a,v
        return sa,sv,ia,iv
    def register(s,st,name,T):
        ok,ex=s.run('ops','reg',[L(('u',name))],st,T)
        # either caching outcome; take the one in which the cache was only extended
        ok=[x for x,_ in ok if not x.top]
        if not ok: raise Exception('cannot register a type')
        return ok[0].cp(ev=(),facts=())
    def generalise(s,st,name,T,n=None,tag=None):
        """the segment of T holds n arbitrary elements and has spare capacity"""
        I=s.I
        nd,o=s.seg_of(st,name,T)
        sa,sv,ia,iv=s.stores(st,o)
        tag=tag or name+T
        n=sym('n_'+tag) if n is None else Aff.of(n)
        cs=sym('capS_'+tag)
        st=st.assume(n).assume(cs-n).assume(cs-1)
        tm=tok('el',name,T,sym(J))
        nv=stdmodels.vset(sv,size=n,cap=cs,zones=((n,tm),))
        old=sv; st=I.wr(st,sa,nv)
        sh={sv[1]:n.scale(sv[4])}
        if iv is not None:
            ci=sym('capI_'+tag)
            st=st.assume(ci-cs-1)
            t=iv[6][0][1]
            def shift(x):
                if isinstance(x,tuple):
                    if len(x)==4 and x[0]=='B' and x[1]==sv[1]: return B(x[1],x[2]+sym(J).scale(sv[4]),x[3])
                    return tuple(shift(y) if isinstance(y,tuple) else y for y in x)
                return x
            st=I.wr(st,ia,stdmodels.vset(iv,size=n+1,cap=ci,zones=((n+1,shift(t)),)))
            sh[iv[1]]=n.scale(iv[4])
            def mv(x):
                if isinstance(x,tuple):
                    if len(x)==4 and x[0]=='B' and x[1]==iv[1]: return B(x[1],x[2]+n.scale(iv[4]),x[3])
                    return tuple(mv(y) if isinstance(y,tuple) else y for y in x)
                return x
            r=st.mem[nd]; st=st.set(nd,mv(r))
        else:
            # pointers into the storage that were null while there was none
            ok,ex=s.run('whole','end_i',[L(('u',name)),L(('ti','vt::'+T,0))],st)
            e=ok[0][1]
            p=find_ptr(e,sv[1])
            r=st.mem[nd]; sec=rget(r,'second')
            sec=Rec(sec[1],{k:(p if v==NULL else (B(v[1],v[2]+n.scale(sv[4])) if isinstance(v,tuple) and v[:1]==('B',) else v)) for k,v in sec[2]})
            st=st.set(nd,rset(r,'second',sec))
        return st
    def resize(s,st,name,T,m):
        """the same storage holding m elements"""
        I=s.I; nd,o=s.seg_of(st,name,T); sa,sv,ia,iv=s.stores(st,o)
        st=I.wr(st,sa,stdmodels.vset(sv,size=m,zones=((m,tok('el',name,T,sym(J))),)))
        z=znorm(iv[6],st.cons); t=z[0][1]
        if len(z)!=1 or J not in vsyms(t,set()):
            def shift(x):
                if isinstance(x,tuple):
                    if len(x)==4 and x[0]=='B' and x[1]==sv[1]: return B(x[1],sym(J).scale(sv[4]),x[3])
                    return tuple(shift(y) if isinstance(y,tuple) else y for y in x)
                return x
            t=shift(t)
        st=I.wr(st,ia,stdmodels.vset(iv,size=m+1,zones=((m+1,t),)))
        def mv(x):
            if isinstance(x,tuple):
                if len(x)==4 and x[0]=='B' and x[1]==iv[1]: return B(x[1],m.scale(iv[4]),x[3])
                return tuple(mv(y) if isinstance(y,tuple) else y for y in x)
            return x
        return st.set(nd,mv(st.mem[nd]))
    api=False
    def fill(s,st,name,T,n):
        """n elements inserted through the interface"""
        for i in range(n):
            st=st.set(('u','bb'),tok('val','b','long',0)).set(('u','kk'),tok('val','k','char',0))
            ok,ex=s.run('ops','emplace',[L(('u',name)),sym('A'),L(('u','bb')),L(('u','kk'))],st,T)
            ok=[x for x,_ in ok if not x.top and not any(e[0]=='VIOL' for e in x.ev)]
            if not ok: raise Exception('cannot insert')
            st=ok[0].cp(ev=(),facts=()).rm([('u','bb'),('u','kk')])
        # the elements get names of their own
        nd,o=s.seg_of(st,name,T); sa,sv,ia,iv=s.stores(st,o)
        return s.I.wr(st,sa,stdmodels.vset(sv,zones=((sv[2],tok('el',name,T,sym(J))),)))
    def coll(s,st,name,segs,al='A'):
        """segs: [(T,mode)], map order; mode: 'gen' | 'fresh' | integer"""
        st=s.empty(st,name,al)
        for T,mode in reversed(segs): st=s.register(st,name,T)
        for T,mode in segs:
            if mode!='fresh' and s.api: st=s.fill(st,name,T,2 if mode=='gen' else mode)
            elif mode!='fresh': st=s.generalise(st,name,T,None if mode=='gen' else mode)
        return st
