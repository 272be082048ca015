"""Proof obligations: for every public operation, abstract pre-states, the effect
the property demands, and the comparison with the effect inferred from the code."""
import hashlib
from poly import *
from interp import *
import stdmodels
from stdmodels import vset,tiname
from accel import same,same_zones
from world import World,find_ptr
UNREG='unregistered_type'
class Finding:
    __slots__=('props','what','where','op','cfg')
    def __init__(s,props,what,op='',cfg='',where=''):
        s.props=tuple(props); s.what=what; s.op=op; s.cfg=cfg; s.where=where
    def key(s): return (s.props,s.what,s.op,s.cfg)
class Run:
    """results of one obligation"""
    def __init__(s,op,cfg): s.op=op; s.cfg=cfg; s.findings=[]; s.undecided=[]; s.paths=0; s.views=0
    def bad(s,props,what,where=''): s.findings.append(Finding(props,what,s.op,s.cfg,where))
class Skip(Exception): pass
def tn(T): return 'vt::'+T
def xname(e):
    """class name of an exception"""
    if isinstance(e,tuple) and e[:2]==('T','exc') and isinstance(e[2],str): return e[2].split('::')[-1]
    return '?'
def xinfo(e):
    """types whose information an exception carries"""
    out=set()
    def go(v):
        if isinstance(v,tuple):
            if len(v)==3 and v[0]=='ti' and isinstance(v[1],str): out.add(v[1])
            else:
                for y in v: go(y)
    if isinstance(e,tuple) and len(e)>3: go(e[3])
    return out
def payload(r,props,e,T,label=''):
    q=xinfo(e)
    if q and q!={tn(T)}: r.bad(props,label+'the exception carries the type information of %s instead of %s'%(', '.join(sorted(q)),tn(T)))
class Spec:
    small=None
    def __init__(s,prog,kind):
        s.w=World(prog); s.I=s.w.I; s.p=prog; s.kind=kind
        s.boff={}; s.vcache={}; s.after=None; s.shared=None
        for r in prog.recs.values():
            if r['sq'] in('vt::D1','vt::D2','vt::D3'):
                off=0
                if kind==0:
                    for b in r.get('bases',()):
                        if prog.recs[b['r']]['sq']=='vt::base': off=b.get('off',0)
                s.boff[r['sq']]=off
    # ---- states ---------------------------------------------------------------
    def build(s,colls,alt=False,als=None):
        """colls: {name:[(T,mode)]}"""
        st=St({},Cons())
        if s.small is not None: colls={nm:[(t,s.small if m=='gen' else m) for t,m in q] for nm,q in colls.items()}
        for nm,segs in colls.items():
            st=s.w.coll(st,nm,segs,(als or {}).get(nm,'A'))
        if alt:
            def go(v):
                if isinstance(v,tuple):
                    if len(v)==3 and v[0]=='ti': return ('ti',v[1],1)
                    return tuple(go(x) if isinstance(x,tuple) else x for x in v)
                return v
            st=st.cp(mem={k:go(v) for k,v in st.mem.items()})
        fa=()
        if als and len(set(als.values()))>1: fa=((tok('aleq',tok('al','A'),tok('al','B')),False),)
        return st.cp(ev=(),facts=fa)
    def snapshot(s,st,name):
        out=[]
        for ti,nd,o in s.w.segs(st,name):
            if o is None: out.append((ti,nd,None)); continue
            sa,sv,ia,iv=s.w.stores(st,o)
            if sv is None: out.append((ti,nd,o)); continue
            out.append((ti,nd,o,sv[1],sv[2],sv[3],sv[6],iv[1] if iv else 'none',iv[3] if iv else ZERO))
        return tuple(out)
    def snap(s,st,names,**vals):
        return st.set(('snap',),('SNAP',tuple((n,s.snapshot(st,n)) for n in names),tuple(sorted(vals.items()))))
    def pre(s,st,name):
        return dict(st.mem[('snap',)][1])[name]
    def val(s,st,k): return dict(st.mem[('snap',)][2])[k]
    def seg(s,sn,T):
        for x in sn:
            if x[0]==tn(T): return x
        return None
    def ti(s,T,v=0): return L(('ti',tn(T),v))
    # ---- iterators --------------------------------------------------------------
    def shift(s,st,v,k):
        vs=s.I.vecs(st)
        def go(x):
            if isinstance(x,tuple):
                if len(x)==4 and x[0]=='B':
                    z=vs.get(x[1])
                    return B(x[1],x[2]+Aff.of(k).scale(z[1][4]),x[3]) if z else x
                return tuple(go(y) if isinstance(y,tuple) else y for y in x)
            return x
        return go(v)
    def call1(s,st,cls,nm,args,T=''):
        ok,ex=s.w.run(cls,nm,args,st,T)
        ok=[(x,v) for x,v in ok if not x.top]
        if len(ok)!=1: raise Skip('%s::%s gives %d results'%(cls,nm,len(ok)))
        return ok[0][1]
    def it_lb(s,st,name,T,k,const=False,end=False):
        v=s.call1(st,'whole',('c' if const else '')+('end_i' if end else 'begin_i'),[L(('u',name)),s.ti(T)])
        return s.shift(st,v,k)
    def it_l(s,st,name,T,k,const=False,end=False):
        v=s.call1(st,'ops',('c' if const else '')+('end' if end else 'begin'),[L(('u',name))],T)
        return s.shift(st,v,k)
    def it_end(s,st,name,const=True):
        return s.call1(st,'whole','cend' if const else 'end',[L(('u',name))])
    def it_g(s,st,name,T,k,const=True):
        """global iterator at element k of the segment of T"""
        e=s.it_end(st,name,const)
        lb=s.it_lb(st,name,T,k,const)
        nd,_=s.w.seg_of(st,name,T)
        # the end iterator with the position of lb
        recs=[v for _,v in lb[2] if isinstance(v,tuple) and v[0]=='R']
        own=[v[1] for _,v in e[2] if isinstance(v,tuple) and v[0]=='R']
        if own and recs and recs[0][1] not in own:
            lb=s.it_lb(st,name,T,k,not const)
            recs=[v for _,v in lb[2] if isinstance(v,tuple) and v[0]=='R']
        d={}
        its=[key for key,v in e[2] if isinstance(v,tuple) and v[0]=='I']
        if len(its)!=2: raise Skip('iterator layout')
        flds=[f['id'] for f in s.p.recs[e[1]].get('fields',())]
        its.sort(key=lambda q:flds.index(q) if q in flds else 99)
        for key,v in e[2]:
            if isinstance(v,tuple) and v[0]=='I': d[key]=('I',nd) if key==its[0] else v
            elif recs: d[key]=recs[0]
            else: raise Skip('iterator layout')
        return Rec(e[1],d)
    # ---- observations -------------------------------------------------------------
    def ranges(s,st,ev):
        """events -> list of ('ti',name) | ['r',buf,start,count,sub]; None if not understood"""
        out=[]; bad=None
        vs=s.I.vecs(st)
        def add(a,cnt,off0,stride):
            o=vs.get(a[1])
            if o is None: return 'released storage is reached'
            z=o[1][4]; sub=off0.c%z
            i=(off0-sub).divexact(z)
            if i is None: return None
            if stride is not None and stride!=z and st.cons.possible(cnt-2): return 'the traversal does not step by one element'
            out.append(['r',a[1],i,cnt,sub]); return True
        for e in ev:
            if e[0]=='visit_ti': out.append(('ti',e[1])); continue
            if e[0]=='VIOL': return None,e[1]+' ('+str(e[2])[:200]+')'
            if e[0]=='visit' or e[0]=='rep':
                if e[0]=='visit': a,cnt,body=e[1],ONE,None
                else:
                    b=[y for y in e[2] if y[0] not in('ueq','ucall')]
                    if any(y[0]=='VIOL' for y in b): return None,[y for y in b if y[0]=='VIOL'][0][1]
                    if not b: continue
                    if len(b)!=1 or b[0][0]!='visit': return None,None
                    a,cnt=b[0][1],e[1]
                if a[0]=='DANGLING': return None,'released storage is reached'
                if a[0]=='PASTEND': return None,'a position outside the stored elements is reached'
                if a[0]!='B': return None,None
                off=a[2]; cj=off.coef(J)
                r=add(a,cnt,off.subst({J:ZERO}),cj if e[0]=='rep' else None)
                if r is not True: return None,r
        m=[]
        for x in out:
            if x[0]=='r':
                if st.cons.entails_eq(x[3]): continue
                if m and m[-1][0]=='r' and m[-1][1]==x[1] and m[-1][4]==x[4] and st.cons.entails_eq(m[-1][2]+m[-1][3]-x[2]):
                    m[-1]=['r',x[1],m[-1][2],m[-1][3]+x[3],x[4]]; continue
            m.append(x)
        return m,None
    def cmp_ranges(s,st,got,want):
        """want: list of ('ti',n)|('r',buf,start,count,sub)"""
        want=[x for x in want if x[0]=='ti' or not st.cons.entails_eq(x[3])]
        i=0
        for x in want:
            if i>=len(got):
                if x[0]=='ti': return 'segment %s is not visited'%x[1]
                return 'elements are not visited' if s.poss(st,x[3]-1) else None
            g=got[i]
            if x[0]=='ti':
                if g!=x: return 'segments are visited in the wrong order or not at all'
                i+=1; continue
            if g[0]!='r': return 'elements of a segment are not visited'
            if g[1]!=x[1]: return 'elements of the wrong segment are visited, or elements are missed'
            if g[4]!=x[4]: return 'elements are visited through a misplaced address'
            if not st.cons.entails_eq(g[2]-x[2]): return 'the traversal starts at the wrong element'
            if not st.cons.entails_eq(g[3]-x[3]): return 'the traversal visits a wrong number of elements (%r instead of %r)'%(g[3],x[3])
            i+=1
        if i<len(got): return 'the traversal runs past the elements'
        return None
    def poss(s,st,a): return st.cons.possible(a)
    def observe(s,r,props,st,cls,nm,args,want,T='',label=''):
        """run a traversal and compare; want is a function of the final state"""
        s.I.steps=0
        try: ok,ex=s.w.run(cls,nm,args,st.cp(ev=()),T)
        except Budget: r.undecided.append(nm+': budget'); return
        r.views+=1
        if ex: r.bad(props,label+'a traversal can throw ('+nm+')')
        for x,v in ok:
            vi=[e for e in x.ev if e[0]=='VIOL']
            if vi: r.bad(props,label+'%s: %s (%s)'%(nm,vi[0][1],str(vi[0][2])[:160])); continue
            if x.top: r.undecided.append('%s: %s'%(nm,x.top[0])); continue
            got,why=s.ranges(x,x.ev)
            if got is None:
                if why: r.bad(props,label+'%s: %s'%(nm,why))
                else: r.undecided.append(nm+': events')
                continue
            m=s.cmp_ranges(x,got,want(x))
            if m: r.bad(props,label+'%s: %s'%(nm,m))
    def full(s,st,x,base=True):
        """range covering segment snapshot x"""
        return ('r',x[3],ZERO,x[4],s.boff.get(x[0],0) if base else 0)
    def canon(s,st,name):
        """the part of the state the views of a collection can depend on, with
        element values, capacities and the constraints about them forgotten
        (a sound weakening), and storage renamed in order of appearance"""
        ren={}; caps=[0]
        def go(v):
            if isinstance(v,tuple):
                if v[:1]==('V',) and len(v)==8:
                    b=ren.setdefault(v[1],'b#%d'%len(ren))
                    caps[0]+=1; c=sym('cap#%d'%caps[0])
                    extra.append(c-v[2]); extra.append(c-1 if st.cons.entails(v[3]-1) else c)
                    h=stdmodels.holder(s.I,v[5])
                    return ('V',b,v[2],c,v[4],v[5],((v[2],tok('e',b,sym(J))),) if h else go(znorm(v[6],st.cons)),v[7])
                if v[:1]==('B',) and len(v)==4: return ('B',ren.setdefault(v[1],'b#%d'%len(ren)),v[2],v[3])
                return tuple(go(x) if isinstance(x,tuple) else x for x in v)
            return v
        extra=[]
        ids={}
        def rid(v):
            if isinstance(v,tuple):
                if len(v)==2 and v[0] in('node','seg'):
                    if v not in ids: ids[v]=(v[0],len(ids)+1); todo.append(v)
                    return ids[v]
                return tuple(rid(x) if isinstance(x,tuple) else x for x in v)
            return v
        todo=[('u',name)]; mem={}
        while todo:
            k=todo.pop(0)
            if k in st.mem: mem[ids.get(k,k)]=rid(go(st.mem[k]))
        # the number of elements of a segment becomes a symbol of its own
        w=St(mem,st.cons); k=0
        for b,(a,v) in list(s.I.vecs(w).items()):
            if not stdmodels.holder(s.I,v[5]): continue
            e=s.I.vecs(w)[b][1][2]
            c=[x for x,y in e.t if y==1 and not x.startswith('n#')]
            if c:
                x=c[0]; k+=1; n=next((Aff.of(i) for i in range(5) if w.cons.entails_eq(e-i)),None)
                if n is None: n=sym('n#%d'%k)
                lo=w.cons.entails(e-1)
                w=w.cp(mem={q:vsub(z,{x:n-(e-sym(x))}) for q,z in w.mem.items()},cons=w.cons.subst({x:n-(e-sym(x))}))
                extra[:]=[q.subst({x:n-(e-sym(x))}) for q in extra]
                extra.append(n-1 if lo else n)
        mem=w.mem
        used=vsyms(tuple(mem.values()),set())
        if all(q.startswith('n#') or q.startswith('cap#') or q==J for q in used): cons=Cons()
        else: cons=Cons(frozenset(a for a in w.cons.s if a.t and a.syms()<=used))
        for a in extra: cons=cons.add(a)
        key=(name,tuple(str(x) for x in mem.items()),cons.s)
        return key,St(mem,cons)
    def views(s,r,props,st,name,label=''):
        if s.after: s.after(s,r,st,name,label)
        try: key,w=s.canon(st,name)
        except Exception: key=None
        if key is not None:
            key=hashlib.md5(repr((s.kind,key[0],key[1],sorted(map(repr,key[2])))).encode()).hexdigest()
            hit=s.vcache.get(key)
            if hit is None and s.shared is not None:
                hit=s.shared.get(key)
                if hit is not None: s.vcache[key]=hit
            if hit is None:
                r2=Run('','')
                try: s.views1(r2,props,w,name,label)
                except Exception: r2.undecided.append('canon')
                hit=s.vcache[key]=(not r2.findings and not r2.undecided,r2.views)
                if s.shared is not None: s.shared[key]=hit
            if hit[0]: r.views+=hit[1]; return
        s.views1(r,props,st,name,label)
    def views1(s,r,props,st,name,label=''):
        """all views of the collection describe the stored elements"""
        s0=s.snapshot(st,name)
        st=st.set(('snap2',),('SNAP',s0,()))
        def now(x): return x.mem[('snap2',)][1]
        for q in s0:
            if len(q)<9: r.bad(props,label+'a segment without storage'); return
        a=[L(('u',name))]
        s.observe(r,props,st,'whole','visit_st',a,lambda x:[y for q in now(x) for y in(('ti',q[0]),s.full(x,q))],label=label)
        s.observe(r,props,st,'whole','visit',a,lambda x:[s.full(x,q) for q in now(x)],label=label)
        for i,q in enumerate(s0):
            T=q[0][4:]
            s.observe(r,props,st,'whole','visit_i',a+[s.ti(T)],lambda x:[s.full(x,now(x)[i])],label=label)
            s.observe(r,props,st,'ops','visit_t',a,lambda x:[s.full(x,now(x)[i],False)],T,label=label)
        s.query(r,props,st,'whole','size',a,'',lambda x:sum((q[4] for q in now(x)),ZERO),label)
        for i,q in enumerate(s0):
            T=q[0][4:]
            s.query(r,props,st,'whole','size_i',a+[s.ti(T)],'',lambda x:now(x)[i][4],label)
            s.query(r,props,st,'ops','size',a,T,lambda x:now(x)[i][4],label)
    def query(s,r,props,st,cls,nm,args,T,want,label=''):
        ok,ex=s.w.run(cls,nm,args,st.cp(ev=()),T)
        r.views+=1
        if ex: r.bad(props,label+'%s throws %s'%(nm,xname(ex[0][1])))
        for x,v in ok:
            vi=[e for e in x.ev if e[0]=='VIOL']
            if vi: r.bad(props,label+'%s: %s'%(nm,vi[0][1])); continue
            if x.top or istop(v): r.undecided.append(nm); continue
            w=want(x)
            if isinstance(w,bool):
                for y,b in s.I.branch(x,v):
                    if b!=w and not y.top: r.bad(props,label+'%s gives %s'%(nm,b)); break
            elif isinstance(w,tuple) and w and w[0]=='c':
                for y,b in s.I.branch(x,v):
                    for z,c in s.I.branch(y,w):
                        if b!=c and not z.top: r.bad(props,label+'%s gives the wrong answer'%nm); break
            elif not isinstance(v,Aff): r.undecided.append(nm)
            elif not x.cons.entails_eq(v-w): r.bad(props,label+'%s gives %r instead of %r'%(nm,v,w))
    # ---- generic conditions on a final state ---------------------------------------
    def events(s,r,st,props=(),label=''):
        """definite memory violations seen on the way; True if clean"""
        clean=True
        for e in st.ev:
            b=[e]
            if e[0] in('rep','each'): b=list(e[2])
            for y in b:
                if y[0]=='VIOL':
                    w=y[1]; p=['C01']+list(props)
                    if 'twice' in w or 'alive' in w: p=['C14']+list(props)
                    if 'no longer exists' in w or 'end of the segment map' in w or 'moved away' in w: p=['C05','C01','C11']+list(props)
                    r.bad(sorted(set(p)),label+w+' ('+str(y[2])[:300]+')'); clean=False
                if y[0]=='VIOL-NX':
                    r.bad(['C17']+list(props),label+'exception leaves a function declared noexcept: '+y[1]+' ('+str(y[2])[:300]+')'); clean=False
        return clean
    def owned(s,r,st,label=''):
        """no leak: every segment object and node belongs to a live collection"""
        I=s.I
        from stdmodels import maps
        ms=maps(st); nodes=set()
        for a,m in ms: nodes|=set(m[1])
        own=set()
        for nd in nodes:
            def go(v):
                if isinstance(v,tuple) and v:
                    if v[0]=='U' and v[1]!=NULL: own.add(v[1][1])
                    elif v[0]=='R':
                        for _,x in v[2]: go(x)
            go(st.mem.get(nd))
        for o,v in st.mem.items():
            if isinstance(o,tuple) and o[0]=='seg' and o not in own and v!=('FREED',):
                r.bad(['C14'],label+('storage allocated for a segment is not released' if v[0]=='A' else 'a segment is lost without being destroyed'))
            if isinstance(o,tuple) and o[0]=='node' and o not in nodes:
                # nodes of destroyed maps are removed by the models; a stray node is a construction left over
                pass
    def allocs(s,r,st,al=tok('al','A'),label=''):
        known={}
        def go(ev):
            for e in ev:
                if e[0] in('rep','each'): go(e[2])
                elif e[0]=='alloc':
                    known[e[1]]=e[2]
                    if e[2]!=al: r.bad(['C13'],label+'segment allocated with another allocator than the collection\'s')
                elif e[0]=='dealloc':
                    if e[1] in known and known[e[1]]!=e[2]: r.bad(['C13','C14'],label+'segment released through another allocator than it came from')
                elif e[0]=='baddestr': r.bad(['C13','C14'] if 'times' in e[1] else ['C13'],label+e[1])
                elif e[0]=='cons':
                    if e[1] is None: r.bad(['C13'],label+'an element is constructed without the allocator')
                    elif e[1]!=al: r.bad(['C13'],label+'an element is constructed through another allocator than the collection\'s')
        go(st.ev)
    def untouched(s,r,st,name,skip=(),label='',props=('C05','C04')):
        """all segments of the collection except those of the types in skip are as before"""
        pre=s.pre(st,name); post=s.snapshot(st,name)
        pd={x[0]:x for x in post}
        for q in pre:
            if q[0][4:] in skip: continue
            x=pd.get(q[0])
            if x is None: r.bad(list(props)+['C01'],label+'the segment of %s vanished'%q[0]); continue
            if len(x)<9: r.bad(props,label+'the segment of %s lost its storage'%q[0]); continue
            if x[3]!=q[3] or x[7]!=q[7]: r.bad(props,label+'storage of the unrelated segment of %s was moved'%q[0])
            elif not same_zones(x[6],q[6],st.cons): r.bad(props,label+'elements of the unrelated segment of %s changed'%q[0])
        for x in post:
            if x[0] not in[q[0] for q in pre] and x[0][4:] not in skip: r.bad(props,label+'a segment of %s appeared'%x[0])
        n=[x[0] for x in post]
        if len(set(n))!=len(n): r.bad(['C05','C07'],label+'two segments of the same type')
    def effect(s,r,props,st,name,T,want,label=''):
        """the elements of the segment of T are those of the zones want"""
        x=s.seg(s.snapshot(st,name),T)
        if x is None: r.bad(props,label+'the segment of %s does not exist'%T); return None
        if len(x)<9: r.bad(props,label+'segment without storage'); return None
        n=sum((z[0] for z in want),ZERO)
        if not st.cons.entails_eq(x[4]-n):
            r.bad(props,label+'the segment holds %r elements instead of %r'%(x[4],n)); return None
        if not same_zones(x[6],tuple(want),st.cons):
            r.bad(props,label+'wrong elements or order: %s instead of %s'%(zs(x[6]),zs(want))); return None
        return x
def zs(z): return '['+'; '.join('%r x %s'%(l,tshort(t)) for l,t in z)[:300]+']'
def tshort(t):
    if isinstance(t,tuple) and t[:1]==('T',): return '-'.join(str(x) if not isinstance(x,tuple) else '(..)' for x in t[1:5])
    return str(t)[:60]
