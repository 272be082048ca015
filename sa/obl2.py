"""Obligations about whole collections: copy, move, assignment, swap, destruction, equality."""
from obl import *
import stdmodels
def al(n): return tok('al',n)
def als_of(S,st,name):
    """allocators found in a collection: [(what,id)]"""
    out=[]; I=S.I
    def go(v,what):
        if not isinstance(v,tuple) or not v: return
        if v[0]=='M': out.append(('segment map' if any(stdmodels.tiname(rget(st.mem[n],'first')) and isinstance(rget(st.mem[n],'second'),tuple) and rget(st.mem[n],'second')[0]=='R' for n in v[1] if n in st.mem and isinstance(st.mem[n],tuple) and st.mem[n][0]=='R') else 'map',stdmodels.alid(v[2])))
        elif v[0]=='R':
            for _,x in v[2]: go(x,what)
    go(st.mem.get(('u',name)),'')
    for ti,nd,o in S.w.segs(st,name):
        if o is None: continue
        sa,sv,ia,iv=S.w.stores(st,o)
        if sv: out.append(('storage of %s'%ti,stdmodels.alid(sv[7])))
        if iv: out.append(('index of %s'%ti,stdmodels.alid(iv[7])))
    return out
def check_als(S,r,st,name,want,label='',cache=True):
    for what,i in als_of(S,st,name):
        if i!=want and not(what=='map' and not cache): r.bad(['C13'],label+'%s of %s uses another allocator than the collection should have'%(what,name)); return
def flow(S,r,st,colls,label=''):
    """storage of the segments: allocation/deallocation through matching allocators"""
    known={}
    pre=dict(st.mem[('snap',)][1])
    for n,a in colls.items():
        for q in pre.get(n,()):
            if q[2] is not None: known[q[2]]=a
    def go(ev):
        for e in ev:
            if e[0] in('rep','each'): go(e[2])
            elif e[0]=='alt': go(e[1]); go(e[2])
            elif e[0]=='alloc': known[e[1]]=e[2]
            elif e[0]=='dealloc':
                if e[1] in known and known[e[1]]!=e[2]: r.bad(['C13','C14'],label+'segment released through another allocator than it came from')
    go(st.ev)
    # segments live with the allocator of the collection owning them
    for n in list(colls)+['r']:
        if ('u',n) not in st.mem: continue
        for ti,nd,o in S.w.segs(st,n):
            if o is None or o not in known: continue
            sv=S.w.stores(st,o)[1]
            if sv and stdmodels.alid(sv[7])!=known[o]: r.bad(['C13'],label+'segment object and its elements use different allocators')
def ren(z,frm,to): return z
def same_contents(S,r,st,name,src,label='',props=('C11',),moved=False):
    """segments of name hold the elements src (a snapshot) had"""
    got={q[0]:q for q in S.snapshot(st,name)}
    for q in src:
        g=got.get(q[0])
        if g is None:
            # an empty segment need not be carried over
            if st.cons.entails_eq(q[4]): continue
            r.bad(props,label+'the segment of %s is missing'%q[0]); continue
        if len(g)<9: r.bad(props,label+'segment without storage'); continue
        if not st.cons.entails_eq(g[4]-q[4]): r.bad(props,label+'the segment of %s holds %r elements instead of %r'%(q[0],g[4],q[4])); continue
        if not same_zones(g[6],q[6],st.cons): r.bad(props,label+'the segment of %s holds other elements: %s instead of %s'%(q[0],zs(g[6]),zs(q[6])))
    for n,g in got.items():
        if n not in[q[0] for q in src] and not(len(g)>=9 and st.cons.entails_eq(g[4])): r.bad(props,label+'elements of %s appear from nowhere'%n)
    n=[q[0] for q in S.snapshot(st,name)]
    if len(set(n))!=len(n): r.bad(['C05','C07'],label+'two segments of the same type')
def nocopy(cfg): return any(t=='D3' and m!='fresh' for t,m in cfg)
def exok(S,r,x,e,cfg,lab,can=True):
    n=xname(e)
    if n in('user','bad_alloc'): return True
    if n=='not_copy_constructible':
        if not nocopy(cfg): r.bad(['C18','C11'],'%s thrown although all elements can be copied'%n)
        payload(r,['C18'],e,'D3'); return True
    r.bad(['C11'],'%s thrown'%n); return False
def wrote(ev):
    for e in ev:
        if e[0] in('rep','each'): yield from wrote(e[2])
        elif e[0]=='alt': yield from wrote(e[1]); yield from wrote(e[2])
        elif e[0]=='wrote': yield e
def cfgstr(cfg): return '+'.join(t+':'+str(m) for t,m in cfg) or 'empty'
P11=('C11',)
def ob_copy(S,cfg,nm,alt=False):
    r=Run(nm,cfgstr(cfg)+('/alt' if alt else ''))
    st=S.build({'a':cfg},alt)
    args=[A()]; want=al('A')
    if S.w.soccc: want=tok('al','soccc',al('A'))
    if nm=='copy_al':
        c=S.I.cls(S.w.fn('whole','copy_al')['ps'][1]['t'])
        st=st.set(('u','alx'),Rec(c,{'id':al('B')})); args.append(L(('u','alx'))); want=al('B')
    st=S.snap(st,['a'])
    S.I.watch=frozenset(k for k in st.mem if k[0] not in('t','v','this','snap'))
    def ok(x,v):
        x=x.set(('u','r'),v)
        pre=S.pre(x,'a')
        w=next(wrote(x.ev),None)
        if w: r.bad(['C15'],'copying writes to the source collection (%s)'%w[2])
        same_contents(S,r,x,'r',pre)
        S.untouched(r,x,'a',(),'source: ',('C11','C05'))
        own={q[3] for q in pre if len(q)>3}
        if any(len(q)>3 and q[3] in own for q in S.snapshot(x,'r')): r.bad(P11,'copy and source share element storage')
        for q in pre:
            if q[0]==tn('D3') and not x.cons.entails_eq(q[4]) : r.bad(['C18','C11'],'elements that cannot be copied are copied')
        check_als(S,r,x,'r',want); check_als(S,r,x,'a',al('A'))
        S.allocs(r,x,want); flow(S,r,x,{'a':al('A')}); S.owned(r,x)
        S.views(r,['C01','C11'],x,'r'); S.views(r,['C01','C11'],x,'a')
        usable(S,r,x,'r'); usable(S,r,x,'a')
    def ex(x,e,lab):
        if not exok(S,r,x,e,cfg,lab): return
        S.untouched(r,x,'a',(),lab+'source: ',('C11','C05')); flow(S,r,x,{'a':al('A')},lab); S.owned(r,x,lab)
        S.views(r,['C01','C11'],x,'a',lab)
        usable(S,r,x,'a',('D1',),lab)
    try: go(S,r,st,'whole',nm,args,'',ok,ex,['C11'])
    finally: S.I.watch=frozenset()
    return [r]
def ob_move(S,cfg,nm,same=True,alt=False):
    r=Run(nm,cfgstr(cfg)+('' if same else '/other allocator')+('/alt' if alt else ''))
    st=S.build({'a':cfg},alt,None if same else {'a':'A','b':'B'}); args=[A()]; want=al('A')
    if nm=='move_al':
        want=al('A') if same else al('B')
        c=S.I.cls(S.w.fn('whole','move_al')['ps'][1]['t'])
        st=st.set(('u','alx'),Rec(c,{'id':want})); args.append(L(('u','alx')))
    st=S.snap(st,['a'])
    def ok(x,v):
        x=x.set(('u','r'),v); pre=S.pre(x,'a')
        same_contents(S,r,x,'r',pre)
        check_als(S,r,x,'r',want); check_als(S,r,x,'a',al('A'))
        flow(S,r,x,{'a':al('A')}); S.owned(r,x)
        S.views(r,['C01','C11'],x,'r'); S.views(r,['C01','C11'],x,'a')
        usable(S,r,x,'r'); usable(S,r,x,'a')
    def ex(x,e,lab):
        if nm=='move': r.bad(['C11','C17'],'a move construction can throw %s'%xname(e)); return
        if not exok(S,r,x,e,[],lab): return
        flow(S,r,x,{'a':al('A')},lab); S.owned(r,x,lab)
        S.views(r,['C01','C11'],x,'a',lab); usable(S,r,x,'a',('D1',),lab)
    go(S,r,st,'whole',nm,args,'',ok,ex,['C11'])
    return [r]
def ob_assign(S,ca,cb,nm,same=True,alt=False):
    r=Run(nm,cfgstr(ca)+' = '+cfgstr(cb)+('' if same else '/unequal allocators')+('/alt' if alt else ''))
    st=S.build({'a':ca,'b':cb},alt,{'a':'A','b':'A' if same else 'B'})
    A0,B0=al('A'),al('A' if same else 'B')
    tr=S.w.traits.get('propagate_on_container_'+('copy' if nm=='assign' else 'move')+'_assignment')
    want=B0 if tr else A0
    st=S.snap(st,['a','b'])
    def ok(x,v):
        preb=S.pre(x,'b')
        same_contents(S,r,x,'a',preb)
        if nm=='assign': S.untouched(r,x,'b',(),'source: ',('C11','C05'))
        if nm=='assign':
            own={q[3] for q in preb if len(q)>3}
            if any(len(q)>3 and q[3] in own for q in S.snapshot(x,'a')): r.bad(P11,'copy and source share element storage')
            for q in preb:
                if q[0]==tn('D3') and not x.cons.entails_eq(q[4]) : r.bad(['C18','C11'],'elements that cannot be copied are copied')
        check_als(S,r,x,'a',want,cache=not(nm=='assign' and tr)); check_als(S,r,x,'b',B0,'source: ')
        flow(S,r,x,{'a':A0,'b':B0}); S.owned(r,x)
        S.views(r,['C01','C11'],x,'a'); S.views(r,['C01','C11'],x,'b')
        usable(S,r,x,'a'); usable(S,r,x,'b')
    def ex(x,e,lab):
        if not exok(S,r,x,e,cb if nm=='assign' else [],lab): return
        if nm=='assign': S.untouched(r,x,'b',(),lab+'source: ',('C11','C05'))
        elif same or tr: r.bad(['C11','C17'],'a move assignment between equal allocators can throw %s'%xname(e)) if xname(e)=='user' else None
        flow(S,r,x,{'a':A0,'b':B0},lab); S.owned(r,x,lab)
        for n in 'ab':
            S.views(r,['C01','C11'],x,n,lab); usable(S,r,x,n,('D1',),lab)
    go(S,r,st,'whole',nm,[A(),L(('u','b'))],'',ok,ex,['C11'])
    return [r]
def ob_selfassign(S,cfg,nm):
    r=Run('self '+nm,cfgstr(cfg))
    st=S.snap(S.build({'a':cfg}),['a'])
    def ok(x,v):
        S.untouched(r,x,'a',(),'',('C11','C05')); check_als(S,r,x,'a',al('A')); S.owned(r,x)
        S.views(r,['C01','C11'],x,'a'); usable(S,r,x,'a')
    def ex(x,e,lab): r.bad(P11,'self-assignment throws %s'%xname(e))
    go(S,r,st,'whole',nm,[A(),A()],'',ok,ex,['C11'])
    return [r]
def ob_swap(S,ca,cb,nm):
    same=not S.w.traits.get('propagate_on_container_swap')
    r=Run(nm,cfgstr(ca)+' <-> '+cfgstr(cb))
    st=S.build({'a':ca,'b':cb},False,{'a':'A','b':'A' if same else 'B'})
    A0,B0=al('A'),al('A' if same else 'B')
    st=S.snap(st,['a','b'])
    def ok(x,v):
        for n,o in('ab','ba'):
            pre=S.pre(x,o); now={q[0]:q for q in S.snapshot(x,n)}
            for q in pre:
                g=now.get(q[0])
                if g is None or len(g)<9: r.bad(P11,'the segment of %s is lost'%q[0]); continue
                if g[3]!=q[3] or g[7]!=q[7]: r.bad(['C11','C04'],'swap moves element storage')
                elif not same_zones(g[6],q[6],x.cons): r.bad(P11,'swap changes elements')
            if set(now)-{q[0] for q in pre}: r.bad(P11,'swap leaves foreign segments')
        check_als(S,r,x,'a',B0); check_als(S,r,x,'b',A0)
        flow(S,r,x,{'a':A0,'b':B0}); S.owned(r,x)
        for n in 'ab':
            S.views(r,['C01','C11'],x,n); usable(S,r,x,n)
    def ex(x,e,lab): r.bad(['C11','C17'],'swap can throw %s'%xname(e))
    go(S,r,st,'whole',nm,[A(),L(('u','b'))],'',ok,ex,['C11'])
    return [r]
def ob_destroy(S,cfg):
    r=Run('destroy',cfgstr(cfg))
    st=S.snap(S.build({'a':cfg}),['a'])
    def ok(x,v):
        ev=list(flat(x.ev))
        flow(S,r,x,{'a':al('A')})
        de=[e[1] for e in ev if e[0]=='dealloc']; vd=[e[1] for e in ev if e[0]=='vecdtor']
        for q in S.pre(x,'a'):
            if q[2] not in de: r.bad(['C14'],'the segment object of %s is not released'%q[0])
            elif de.count(q[2])>1: r.bad(['C14'],'the segment object of %s is released twice'%q[0])
            for b in(q[3],q[7]):
                if b!='none' and vd.count(b)!=1: r.bad(['C14'],'the elements of %s are destroyed %d times'%(q[0],vd.count(b)))
        S.owned(r,x)
    def ex(x,e,lab): r.bad(['C14','C17'],'destruction throws')
    go(S,r,st,'whole','destroy',[A()],'',ok,ex,['C14'])
    return [r]
def ob_equal(S,ca,cb,nm,alias=False):
    """the answer follows from sizes and element comparisons exactly as documented"""
    r=Run(nm,cfgstr(ca)+' == '+(cfgstr(cb) if not alias else 'itself'))
    st=S.build({'a':ca,'b':cb} if not alias else {'a':ca})
    st=S.snap(st,['a','b'] if not alias else ['a'])
    neg=nm=='nequal'
    def fact(x,b1,b2):
        for k,v in x.facts:
            if k[:2]==('T','veq') and set(k[2:4])=={b1,b2}: return v
        return None
    def wrong(x,got):
        """a completion of the path on which the documented answer is the other one, or None"""
        pa={q[0]:q for q in S.pre(x,'a')}; pb={q[0]:q for q in S.pre(x,'b')}
        c=x.cons; open_=''
        for t in sorted(set(pa)|set(pb)):
            na=pa[t][4] if t in pa else ZERO; nb=pb[t][4] if t in pb else ZERO
            f=fact(x,pa[t][3],pb[t][3]) if t in pa and t in pb else None
            if got:
                for d in(na-nb,nb-na):
                    if x.cons.possible(d-1): return 'sizes of %s'%t
                if f is False and x.cons.possible(na-1) or f is None and x.cons.possible(na-1): return 'elements of %s'%t
            else:
                if f is False: return None
                c=c.add(na-nb).add(nb-na)
                if not x.cons.entails_eq(na-nb): open_=open_ or 'sizes of %s'%t
                if f is None and not x.cons.entails_eq(na): open_=open_ or 'elements of %s'%t
        if got or c.infeasible(): return None
        return open_ or '-'
    def ok(x,v):
        S.untouched(r,x,'a',(),'',('C15','C12'))
        if alias: return
        S.untouched(r,x,'b',(),'',('C15','C12'))
        for y,b in S.I.branch(x,v):
            if y.top: r.undecided.append('equality'); continue
            got=b!=neg; why=wrong(y,got)
            if why=='-': r.bad(['C12'],'equal collections are reported unequal')
            elif why: r.bad(['C12','C18'] if 'D3' in why else ['C12'],'the answer %s does not depend on the %s'%('equal' if got else 'unequal',why))
    def ex(x,e,lab):
        n=xname(e)
        if n=='not_equality_comparable':
            both=any(t=='D3' and m!='fresh' for t,m in ca) and any(t=='D3' and m!='fresh' for t,m in cb)
            if not both: r.bad(['C12','C18'],'%s thrown although all elements can be compared'%n)
            payload(r,['C18'],e,'D3')
        elif n!='user': r.bad(['C12'],'%s thrown'%n)
        S.untouched(r,x,'a',(),lab,('C15','C12'))
    go(S,r,st,'whole',nm,[A(),L(('u','b')) if not alias else A()],'',ok,ex,['C12'])
    return [r]
def ob_nocopy(S,nm,pos,cname):
    """an element that cannot be copied: the copying insertion throws and nothing changes"""
    T='D3'; cfg=cfgs(T)[cname]; out=[]
    colls={'a':cfg}
    if S.kind!=0: colls['b']=[(T,'gen')]
    st0=S.build(colls); K=sym('K')
    nd,o=S.w.seg_of(st0,'a',T); sv=S.w.stores(st0,o)[1]
    if cname=='fresh': K=ZERO
    else: st0=st0.assume(K).assume(sv[2]-K)
    try: ps=positions(S,st0,pos,T,cfg,K)
    except Skip as e:
        r=Run(nm+'/'+T,cname); r.undecided.append('setup: %s'%e); return [r]
    for pl,pa,idx in ps:
        r=Run('%s<%s>%s'%(nm,T,pl),cname+'/not copyable'); out.append(r)
        st=st0
        if pl=='@own': st=st.assume(sv[2]-K-1)
        if pl=='@other':
            t2=next(t for t,m in cfg if t!=T and m=='gen')
            st=st.assume(S.w.stores(st,S.w.seg_of(st,'a',t2)[1])[1][2]-K-1)
        st,args,exp=source(S,st,'vc',T)
        st=S.snap(st,list(colls))
        def ok(x,v): r.bad(['C18'],'an element of a type that cannot be copied is copied')
        def ex(x,e,lab):
            if xname(e)=='user': r.bad(['C18'],'an operation of the element type is used to copy a type that cannot be copied'); return
            if xname(e) not in('not_copy_constructible','bad_alloc'): r.bad(['C18','C07'],'%s thrown when copying a type that cannot be copied'%xname(e)); return
            if xname(e)!='bad_alloc': payload(r,['C18'],e,'D3')
            S.untouched(r,x,'a',(T,),lab); S.owned(r,x,lab); S.views(r,['C01'],x,'a',lab)
        go(S,r,st,'vops',nm,[L(('u','a'))]+pa+args,'',ok,ex,['C18'])
    return out

# ---- construction from a range -------------------------------------------------------------
def ob_ctor(S,T,cls,nm,src):
    """C(first,last,al): exactly the elements of the range, with the allocator given"""
    cfg=[('D2','gen'),('D1','gen')] if src=='G' else [(T,'gen')]
    r=Run('%s<%s>'%(nm,T),cfgstr(cfg))
    st=S.build({'b':cfg} if src!='u' else {})
    f=S.w.fn(cls,nm,T if cls!='whole' else '')
    if src=='u':
        st,z,M=src_vec(S,st,T); c=S.I.cls(f['ps'][0]['t'])
        args=[Rec(c,{'p':B('bsrc',0)}),Rec(c,{'p':B('bsrc',M.scale(z))})]
        want=[(tn(T),M,((M,tok('src',T,sym(J))),))]
    elif src=='G':
        K,K2=sym('K'),sym('K2')
        n1,n2=[S.w.stores(st,S.w.seg_of(st,'b',t)[1])[1][2] for t,_ in cfg]
        st=st.assume(K).assume(n1-K-1).assume(K2).assume(n2-K2-1)
        args=[S.it_g(st,'b','D2',K),S.it_g(st,'b','D1',K2)]
        want=[(tn('D2'),n1-K,((n1-K,tok('el','b','D2',sym(J)+K)),)),(tn('D1'),K2,((K2,tok('el','b','D1',sym(J))),))]
    else:
        K,M=sym('K'),sym('M'); n=S.w.stores(st,S.w.seg_of(st,'b',T)[1])[1][2]
        st=st.assume(K).assume(M).assume(n-K-M)
        args=[iter_at(S,st,src,T,K,'b'),iter_at(S,st,src,T,K+M,'b')]
        want=[(tn(T),M,((M,tok('el','b',T,sym(J)+K)),))]
    c=S.I.cls(f['ps'][2]['t'])
    st=st.set(('u','alx'),Rec(c,{'id':al('B')})); args.append(L(('u','alx')))
    st=S.snap(st,['b'] if src!='u' else [],**{'w%d'%i:w[1] for i,w in enumerate(want)})
    def ok(x,v):
        x=x.set(('u','r'),v)
        for i,(t,_,z) in enumerate(want):
            m=S.val(x,'w%d'%i)
            g=next((q for q in S.snapshot(x,'r') if q[0]==t),None)
            if g is None or len(g)<9:
                if not x.cons.entails_eq(m): r.bad(['C02','C07'],'the constructed collection has no segment for %s'%t)
                continue
            if not x.cons.entails_eq(g[4]-m): r.bad(['C02'],'the constructed collection holds %r elements of %s instead of %r'%(g[4],t,m)); continue
            if not same_zones(g[6],((m,z[0][1]),),x.cons): r.bad(['C02'],'the constructed collection holds other elements: %s'%zs(g[6]))
        if any(q[0] not in[w[0] for w in want] for q in S.snapshot(x,'r')): r.bad(['C07'],'the constructed collection has a segment of another type')
        if src!='u': S.untouched(r,x,'b',(),'source: ',('C10','C05'))
        if any(y[0]=='move' and (isb(S,x,y[2]) or isinstance(y[2],tuple) and y[2][0]=='B' and y[2][1]=='bsrc') for y in flat(x.ev)): r.bad(['C10'],'elements of the source range are moved from')
        check_als(S,r,x,'r',al('B')); S.allocs(r,x,al('B')); S.owned(r,x)
        S.views(r,['C01'],x,'r'); usable(S,r,x,'r')
    def ex(x,e,lab):
        if xname(e) not in('user','bad_alloc'): r.bad(['C07'],'%s thrown'%xname(e)); return
        if src!='u': S.untouched(r,x,'b',(),lab+'source: ',('C10','C05'))
        S.owned(r,x,lab)
    go(S,r,st,cls,nm,args,T if cls!='whole' else '',ok,ex,['C02'])
    return [r]

def ob_small(S,k,f,*a,**kw):
    """an obligation with k elements in every segment that otherwise has any number"""
    S.small=k; S.I.unroll=k+4
    try: out=globals()[f](S,*a,**kw)
    finally: S.small=None; S.I.unroll=0
    for r in out: r.cfg+='/%d elements each'%k
    return out
