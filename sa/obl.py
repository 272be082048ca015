"""The obligations themselves."""
from spec import *
OTHER={'D1':('D2','D3'),'D2':('D1','D3'),'D3':('D1','D2')}
def cfgs(T):
    O,P=OTHER[T]
    return {'only':[(T,'gen')],'mid':[(O,'gen'),(T,'gen'),(P,'gen')],'fresh':[(T,'fresh'),(O,'gen')],'last':[(P,'fresh'),(O,'gen'),(T,'gen')]}
def nocfgs(T):
    O,P=OTHER[T]
    return {'none':[],'other':[(O,'gen'),(P,'fresh')]}
# (class, entry, position kind, source kind)
SINGLE=[('ops','emplace','end','emplace'),('ops','emplace_hint','hint','emplace'),('ops','emplace_pos_lb','LB','emplace'),
 ('ops','emplace_pos_clb','CLB','emplace'),('ops','emplace_pos_l','L','emplace'),('ops','emplace_pos_cl','CL','emplace'),
 ('ops','insert_m','end','m'),('ops','insert_hm','hint','m'),('ops','insert_lb_m','LB','m'),('ops','insert_clb_m','CLB','m'),
 ('ops','insert_l_m','L','m'),('ops','insert_cl_m','CL','m'),
 ('cops','insert_c','end','c'),('cops','insert_n','end','c'),('cops','insert_hc','hint','c'),('cops','insert_hn','hint','c'),
 ('cops','insert_lb_c','LB','c'),('cops','insert_clb_c','CLB','c'),('cops','insert_l_c','L','c'),('cops','insert_cl_c','CL','c'),
 ('cops','insert_l_n','L','c'),('cops','emplace_1','end','c'),('cops','emplace_hint_1','hint','c'),
 ('cops','emplace_pos_l_1','L','c'),('cops','emplace_pos_lb_1','LB','c'),
 ('vops','insert_v','end','vc'),('vops','insert_hv','hint','vc'),('vops','insert_lbv','LB','vc'),('vops','insert_clbv','CLB','vc'),
 ('vops','insert_vm','end','vm'),('vops','insert_hvm','hint','vm'),('vops','insert_lbvm','LB','vm')]
def positions(S,st,kind,T,cfg,K,reg=True):
    """[(label, argument values, index designated | None=end)]"""
    out=[]
    if kind=='end': return [('',[],None)]
    if kind=='hint':
        out.append(('@end',[S.it_end(st,'a')],None))
        if reg and any(t==T and m=='gen' for t,m in cfg): out.append(('@own',[S.it_g(st,'a',T,K)],K))
        for t,m in cfg:
            if t!=T and m=='gen':
                out.append(('@other',[S.it_g(st,'a',t,K)],None)); break
        return out
    f={'LB':lambda:S.it_lb(st,'a',T,K),'CLB':lambda:S.it_lb(st,'a',T,K,True),'L':lambda:S.it_l(st,'a',T,K),'CL':lambda:S.it_l(st,'a',T,K,True)}[kind]
    return [('',[f()],K)]
def ret_kind(S,cls,nm,T):
    f=S.w.fn(cls,nm,T)
    s=S.p.tstr(f['ret'])
    return s
def check_ret(S,r,st,v,kind,T,idx,label=''):
    """the returned iterator designates element idx of T"""
    a=L(('u','a'))
    sn=S.snapshot(st,'a')
    st=st.set(('snap2',),('SNAP',sn,(('i',idx),)))
    q=[x[0] for x in sn]
    if tn(T) not in q: return
    me=q.index(tn(T))
    def want(x,base=True,rest=True):
        s2=x.mem[('snap2',)][1]; i=dict(x.mem[('snap2',)][2])['i']
        m=s2[me]
        out=[('r',m[3],i,m[4]-i,S.boff.get(m[0],0) if base else 0)]
        if rest: out+=[S.full(x,y) for y in s2[me+1:]]
        return out
    P=['C02','C09']
    if kind in('end','hint','G'):
        st2,ad=S.I.mat(st,v,None)
        try: c=S.call1(st2,'whole','conv',[ad])
        except Skip: r.undecided.append('conv'); return
        S.observe(r,P,st,'whole','visit_from',[a,c],want,label=label+'returned iterator: ')
    elif kind in('LB','CLB'):
        nd,_=S.w.seg_of(st,'a',T)
        its=[x for _,x in v[2] if isinstance(x,tuple) and x[:1]==('I',)]
        if its and its!=[('I',nd)]: r.bad(['C02','C05'],label+'the returned iterator belongs to another segment')
        st2,ad=S.I.mat(st,v,None)
        try:
            c=S.call1(st2,'whole','conv_lb',[ad])
            e=S.it_lb(st,'a',T,ZERO,True,True)
        except Skip: r.undecided.append('conv'); return
        S.observe(r,P,st,'whole','visit_lb',[c,e],lambda x:want(x,rest=False),label=label+'returned iterator: ')
    else:
        st2,ad=S.I.mat(st,v,None)
        try:
            c=S.call1(st2,'ops','conv',[ad],T)
            e=S.it_l(st,'a',T,ZERO,True,True)
        except Skip: r.undecided.append('conv'); return
        S.observe(r,P,st,'ops','visit_cl',[c,e],lambda x:want(x,False,False),T,label=label+'returned iterator: ')
def flat(ev):
    for e in ev:
        if e[0] in('rep','each'): yield from flat(e[2])
        elif e[0]=='alt':
            yield from flat(e[1]); yield from flat(e[2])
        else: yield e
def source(S,st,src,T,alias=None):
    """(state, arguments, value expected)"""
    x=('u','x'); X=L(x)
    if src=='emplace':
        st=st.set(('u','bb'),tok('val','b','long',0)).set(('u','kk'),tok('val','k','char',0))
        exp=tok('new',tn(T),(('l','int',sym('A')),('x','long',tok('val','b','long',0)),('l','const char',tok('val','k','char',0))))
        return st,[sym('A'),L(('u','bb')),L(('u','kk'))],exp
    if src in('vc','vm'):
        if alias is not None: addr,val=alias
        elif S.kind==0:
            v=tok('val','x',tn(T),0)
            st=st.set(x,v); addr,val=L(x,(),S.boff[tn(T)]),v
        else:
            # a handle of an element of another collection
            sa,sv,ia,iv=S.w.stores(st,S.w.seg_of(st,'b',T)[1])
            addr=B(iv[1],sym('KB').scale(iv[4])); val=tok('el','b',T,sym('KB'))
            st=st.assume(sym('KB')).assume(sv[2]-sym('KB')-1)
        return st,[addr],val
    if alias is not None: return st,[alias[0]],alias[1]
    v=tok('val','x',tn(T),0)
    return st.set(x,v),[X],v
def common(S,r,x,label=''):
    S.owned(r,x,label); S.allocs(r,x,label=label)
def ob_single(S,T,cls,nm,pos,src,cname,alt=False,alias=None,views=True):
    """one insertion of one element"""
    out=[]
    cfg=cfgs(T)[cname]
    colls={'a':cfg}
    if src in('vc','vm') and S.kind!=0: colls['b']=[(T,'gen')]
    st0=S.build(colls,alt)
    K=sym('K')
    nd,o=S.w.seg_of(st0,'a',T)
    sv=S.w.stores(st0,o)[1]
    if cname=='fresh': K=ZERO
    else: st0=st0.assume(K).assume(sv[2]-K)
    if alias: 
        KA=sym('KA')
        if cname=='fresh': return out
        st0=st0.assume(KA).assume(sv[2]-KA-1)
    try: ps=positions(S,st0,pos,T,cfg,K)
    except Skip as e:
        r=Run(nm+'/'+T,cname); r.undecided.append('setup: %s'%e); return [r]
    for pl,pa,idx in ps:
        r=Run('%s<%s>%s'%(nm,T,pl),cname+('/alt' if alt else '')+('/alias' if alias else '')); out.append(r)
        st=st0
        if pl=='@own': st=st.assume(sv[2]-K-1)
        if pl=='@other':
            # K designates an element of the other segment
            t2=next(t for t,m in cfg if t!=T and m=='gen')
            sv2=S.w.stores(st,S.w.seg_of(st,'a',t2)[1])[1]
            st=st.assume(sv2[2]-K-1)
        al=None
        if alias:
            sa,sv,ia,iv=S.w.stores(st,o)
            if src in('vc','vm'):
                a=B(iv[1],sym('KA').scale(iv[4])) if iv else B(sv[1],sym('KA').scale(sv[4])+S.boff[tn(T)])
            else: a=B(sv[1],sym('KA').scale(sv[4]))
            al=(a,tok('el','a',T,sym('KA')))
        st,args,exp=source(S,st,src,T,al)
        st=S.snap(st,['a']+(['b'] if 'b' in colls else []),exp=exp,idx=idx if idx is not None else sv[2],K=K)
        S.I.steps=0
        try: ok,ex=S.w.run(cls,nm,[L(('u','a'))]+pa+args,st,T if cls!='vops' else '')
        except Budget: r.undecided.append('budget'); continue
        if not ok: r.bad(['C02'],'the operation never returns normally')
        for x,v in ok:
            r.paths+=1
            if not S.events(r,x,['C03'] if alias else ()): continue
            if x.top: r.undecided.append(x.top[0]); continue
            s0=S.seg(S.pre(x,'a'),T)
            i=S.val(x,'idx'); e=S.val(x,'exp')
            try: want=ztake(s0[6],i,x.cons)+[(ONE,e)]+zdrop(s0[6],i,x.cons)
            except Undecided: r.undecided.append('zones'); continue
            P=['C03'] if alias else (['C02','C10'] if src in('emplace','m','c') else ['C02'])
            q=S.effect(r,P+(['C06'] if alt else []),x,'a',T,want)
            S.untouched(r,x,'a',(T,))
            if 'b' in colls: S.untouched(r,x,'b',(T,) if src=='vm' else ())
            common(S,r,x)
            source_kept(S,r,x,src,T,alias)
            if q is None: continue
            # storage stability
            stable(S,r,x,s0,q,ONE)
            if not alias:
                check_ret(S,r,x,v,pos,T,i)
                if views: S.views(r,['C01'],x,'a')
        for x,e in ex:
            r.paths+=1
            lab='after %s: '%xname(e)
            if not S.events(r,x,['C03'] if alias else (),lab): continue
            if xname(e) not in('user','bad_alloc'):
                r.bad(['C07','C05'],'%s thrown for a registered type'%xname(e)); continue
            if x.top: r.undecided.append(x.top[0]); continue
            S.untouched(r,x,'a',(T,),lab); common(S,r,x,lab)
            if src=='c' and ('u','x') in x.mem and x.mem[('u','x')]!=tok('val','x',tn(T),0): r.bad(['C10'],lab+'the source of a copy was modified')
            if not alias and views: S.views(r,['C01'],x,'a',lab)
    return out
def invariant(S,r,x,name,lab='',only=None):
    """element handles keep room for the reported capacity; where the state does not
    show it, a further insertion from this very state is examined"""
    for q in S.snapshot(x,name):
        if len(q)<9 or q[7]=='none': continue
        if x.cons.entails(q[8]-q[5]-1): continue
        T=q[0][4:]
        # insertions that stay within both capacities lead to any size in between
        m=S.I.fresh('m'); y=x.cp(ev=()).assume(m-q[4]).assume(q[5]-m).assume(q[8]-m-1)
        if y.dead(): continue
        try: y=S.w.resize(y,name,T,m)
        except Exception: r.undecided.append('invariant'); continue
        st=S.snap(y,[name])
        st,args,exp=source(S,st,'emplace',T)
        try: ok,ex=S.w.run('ops','emplace',[L(('u',name))]+args,st,T)
        except Budget: r.undecided.append('budget'); continue
        for y,v in ok:
            if y.top: continue
            s0=S.seg(S.pre(y,name),T); z=S.seg(S.snapshot(y,name),T)
            if z is None or len(z)<9: continue
            r2=Run('',''); stable(S,r2,y,s0,z,ONE)
            for f in r2.findings: r.bad(f.props,lab+'a following emplace: '+f.what); break
def source_kept(S,r,x,src,T,alias):
    """what the operation did to its argument"""
    if alias: return
    def at(e):
        a=e[2]
        return isinstance(a,tuple) and a[0]=='L' and a[1]==('u','x')
    mv=[e for e in flat(x.ev) if e[0]=='move' and (at(e) or src in('vc','vm') and isb(S,x,e[2]))]
    cp=[e for e in flat(x.ev) if e[0]=='copy' and (at(e) or src in('vc','vm') and isb(S,x,e[2]))]
    if src in('c','vc'):
        if mv: r.bad(['C10'],'a copied source is moved from')
        elif len(cp)!=1: r.bad(['C10'],'the source is copied %d times'%len(cp))
        if ('u','x') in x.mem and x.mem[('u','x')]!=tok('val','x',tn(T),0): r.bad(['C10'],'the source of a copy is modified')
    if src in('m','vm'):
        if len(mv)!=1 or cp: r.bad(['C10'],'an rvalue is moved from %d times and copied %d times'%(len(mv),len(cp)))
def isb(S,st,a):
    """address of an element of collection b"""
    if not(isinstance(a,tuple) and a[0]=='B'): return False
    return any(len(q)>3 and q[3]==a[1] for q in dict(st.mem[('snap',)][1]).get('b',()))
def stable(S,r,x,s0,q,m):
    """no reallocation while the capacity reported before the call suffices"""
    fits=s0[5]-s0[4]-m
    y=x.assume(fits)
    if not y.dead():
        if q[3]!=s0[3]: r.bad(['C04'],'element storage is moved although the capacity suffices')
        # the handles of existing elements
        if s0[7]!='none' and q[7]!=s0[7]:
            z=y.assume(s0[4]-1)
            if not z.dead(): r.bad(['C04'],'element handles are moved although the capacity suffices')

# =============================================================================
# generic harness
# =============================================================================
def go(S,r,st,cls,nm,args,T,okcb,excb=None,evp=()):
    """interpret one operation and hand every outcome to the callbacks"""
    S.I.steps=0
    try: ok,ex=S.w.run(cls,nm,args,st,T)
    except Budget: r.undecided.append('budget'); return
    if not ok and okcb and not ex: r.undecided.append('no outcome')
    for x,v in ok:
        r.paths+=1
        if not S.events(r,x,evp): continue
        if x.top: r.undecided.append(x.top[0]); continue
        if okcb is None: r.bad(['C07'],'the operation returns instead of rejecting the type'); continue
        okcb(x,v)
    for x,e in ex:
        r.paths+=1
        lab='after %s: '%xname(e)
        if not S.events(r,x,evp,lab): continue
        if x.top: r.undecided.append(x.top[0]); continue
        if excb: excb(x,e,lab)
        else: r.bad(['C17'],'the operation throws %s'%xname(e))
def A(name='a'): return L(('u',name))
def setup(S,r,colls,alt=False):
    return S.build(colls,alt)
def std_ex(S,r,T,names=('a',),skip=None,props=('C07',),views=True):
    """what must hold after an operation on T failed in a user operation or for lack of memory"""
    def cb(x,e,lab):
        if xname(e) not in('user','bad_alloc'):
            r.bad(props,'%s thrown for a registered type'%xname(e)); return
        for nm in names:
            S.untouched(r,x,nm,(T,) if skip is None else skip,lab)
            if views: S.views(r,['C01']+(['C11'] if 'C11' in props else []),x,nm,lab)
        common(S,r,x,lab)
    return cb
def zones(S,r,x,f):
    try: return f()
    except Undecided: r.undecided.append('zones'); return None
# ---- erasure ------------------------------------------------------------------
ERASE1=[('ops','erase_l','L'),('ops','erase_cl','CL'),('whole','erase_lb','LB'),('whole','erase_clb','CLB'),('whole','erase','G')]
ERASER=[('ops','erase_l_r','L'),('ops','erase_cl_r','CL'),('whole','erase_lb_r','LB'),('whole','erase_clb_r','CLB'),('whole','erase_r','G')]
def iter_at(S,st,kind,T,k,name='a'):
    return {'L':lambda:S.it_l(st,name,T,k),'CL':lambda:S.it_l(st,name,T,k,True),'LB':lambda:S.it_lb(st,name,T,k),
            'CLB':lambda:S.it_lb(st,name,T,k,True),'G':lambda:S.it_g(st,name,T,k)}[kind]()
def ob_erase1(S,T,cls,nm,pos,cname,alt=False):
    r=Run('%s<%s>'%(nm,T),cname); cfg=cfgs(T)[cname]
    st=S.build({'a':cfg},alt); K=sym('K')
    sv=S.w.stores(st,S.w.seg_of(st,'a',T)[1])[1]
    st=st.assume(K).assume(sv[2]-K-1)
    it=iter_at(S,st,pos,T,K)
    st=S.snap(st,['a'],K=K)
    def ok(x,v):
        s0=S.seg(S.pre(x,'a'),T); k=S.val(x,'K')
        want=zones(S,r,x,lambda:ztake(s0[6],k,x.cons)+zdrop(s0[6],k+1,x.cons))
        if want is None: return
        q=S.effect(r,['C02'],x,'a',T,want); S.untouched(r,x,'a',(T,)); common(S,r,x)
        if q is None: return
        if q[3]!=s0[3] or q[7]!=s0[7]: r.bad(['C04'],'an erasure moves the storage')
        check_ret(S,r,x,v,pos,T,k)
        S.views(r,['C01'],x,'a')
        usable(S,r,x,'a',(T,),'',('C01','C02'),True)
    go(S,r,st,cls,nm,[A(),it],T if cls!='whole' else '',ok,std_ex(S,r,T))
    return [r]
def ob_eraser(S,T,cls,nm,pos,cname,alt=False):
    r=Run('%s<%s>'%(nm,T),cname); cfg=cfgs(T)[cname]
    st=S.build({'a':cfg},alt); K,M=sym('K'),sym('M')
    sv=S.w.stores(st,S.w.seg_of(st,'a',T)[1])[1]
    st=st.assume(K).assume(M).assume(sv[2]-K-M)
    if pos=='G': st=st.assume(sv[2]-K-M-1)   # a position inside the segment
    f=iter_at(S,st,pos,T,K); l=iter_at(S,st,pos,T,K+M)
    st=S.snap(st,['a'],K=K,M=M)
    def ok(x,v):
        s0=S.seg(S.pre(x,'a'),T); k=S.val(x,'K'); m=S.val(x,'M')
        want=zones(S,r,x,lambda:ztake(s0[6],k,x.cons)+zdrop(s0[6],k+m,x.cons))
        if want is None: return
        q=S.effect(r,['C02'],x,'a',T,want); S.untouched(r,x,'a',(T,)); common(S,r,x)
        if q is None: return
        if q[3]!=s0[3] or q[7]!=s0[7]: r.bad(['C04'],'an erasure moves the storage')
        check_ret(S,r,x,v,pos,T,k)
        S.views(r,['C01'],x,'a')
        usable(S,r,x,'a',(T,),'',('C01','C02'),True)
    go(S,r,st,cls,nm,[A(),f,l],T if cls!='whole' else '',ok,std_ex(S,r,T))
    return [r]
def ob_erase_span(S,cfg,fi,li,alt=False):
    """erase(first,last) from segment fi to segment li (None: end)"""
    r=Run('erase_r %s..%s'%(cfg[fi][0],cfg[li][0] if li is not None else 'end'),'span')
    st=S.build({'a':cfg},alt); K,M=sym('K'),sym('M')
    def n(i): return S.w.stores(st,S.w.seg_of(st,'a',cfg[i][0])[1])[1][2]
    st=st.assume(K).assume(n(fi)-K-1)
    f=S.it_g(st,'a',cfg[fi][0],K)
    if li is not None:
        st=st.assume(M).assume(n(li)-M-1); l=S.it_g(st,'a',cfg[li][0],M)
    else: l=S.it_end(st,'a')
    st=S.snap(st,['a'],K=K,M=M)
    hi=li if li is not None else len(cfg)
    mine=[t for t,_ in cfg[fi:hi+1]]
    def ok(x,v):
        pre=S.pre(x,'a'); k=S.val(x,'K'); m=S.val(x,'M'); good=True
        for i,(t,_) in enumerate(cfg):
            if i<fi or i>hi: continue
            s0=S.seg(pre,t)
            want=zones(S,r,x,lambda:ztake(s0[6],k,x.cons) if i==fi else zdrop(s0[6],m,x.cons) if i==li else [])
            if want is None: return
            if S.effect(r,['C02'],x,'a',t,want) is None: good=False
        S.untouched(r,x,'a',mine); common(S,r,x)
        if not good: return
        # returned: the element last designated, or the end
        st2,ad=S.I.mat(x,v,None)
        try: c=S.call1(st2,'whole','conv',[ad])
        except Skip: r.undecided.append('conv'); return
        sn=S.snapshot(x,'a'); y=x.set(('snap2',),('SNAP',sn,()))
        S.observe(r,['C02','C09'],y,'whole','visit_from',[A(),c],
            lambda z:[S.full(z,q) for q in (z.mem[('snap2',)][1][li:] if li is not None else [])],label='returned iterator: ')
        S.views(r,['C01'],x,'a')
        usable(S,r,x,'a',(cfg[fi][0],),'',('C01','C02'),True)
    go(S,r,st,'whole','erase_r',[A(),f,l],'',ok,std_ex(S,r,None,skip=mine))
    return [r]
def ob_erase_none(S,cfg):
    """erasing the empty range at the end"""
    r=Run('erase_r end..end','empty'); st=S.build({'a':cfg})
    e=S.it_end(st,'a'); st=S.snap(st,['a'])
    go(S,r,st,'whole','erase_r',[A(),e,e],'',lambda x,v:(S.untouched(r,x,'a',(),'',('C02','C08')),S.views(r,['C01'],x,'a')))
    return [r]
def usable(S,r,st,name,Ts=('D1','D3'),label='',props=('C11','C05'),views=False):
    """every type can be looked up and extended, with the right effect"""
    sn=S.snapshot(st,name); have={q[0] for q in sn}
    a=[L(('u',name))]
    for T in Ts:
        S.query(r,list(props),st,'whole','is_reg_i',a+[S.ti(T)],'',lambda x:tn(T) in have,label+name+' afterwards: ')
        y=S.snap(st.cp(ev=()),[name])
        y,args,exp=source(S,y,'emplace',T)
        y=y.set(('snap3',),('SNAP',exp))
        S.I.steps=0
        try: ok,ex=S.w.run('ops','emplace',a+args,y,T)
        except Budget: r.undecided.append('budget'); continue
        for x,v in ok:
            if not S.events(r,x,list(props[:1]),label+name+' afterwards: '): continue
            if x.top: r.undecided.append(x.top[0]); continue
            s0=S.seg(S.pre(x,name),T)
            want=(list(s0[6]) if s0 else [])+[(ONE,x.mem[('snap3',)][1])]
            S.effect(r,list(props),x,name,T,want,label+name+' afterwards: ')
            S.untouched(r,x,name,(T,),label+name+' afterwards: ',props)
            if views: S.views(r,list(props),x,name,label+name+' afterwards: ')
        for x,e in ex:
            S.events(r,x,list(props[:1]),label+name+' afterwards: ')
            if xname(e) not in('user','bad_alloc'): r.bad(list(props),label+name+' afterwards: emplace throws %s'%xname(e))
# ---- range insertion ------------------------------------------------------------
def typeid_of_name(S,n):
    for i,t in enumerate(S.p.types):
        if isinstance(t,dict) and t.get('s')==n and t.get('k') not in('lref','rref','ptr'): return i
    return None
def src_vec(S,st,T,M=None):
    """an external sequence of M elements of type T"""
    ty=typeid_of_name(S,tn(T)); z=S.p.types[ty]['z']; M=sym('M') if M is None else Aff.of(M)
    st=st.assume(M)
    st=st.set(('u','src'),V('bsrc',M,M+1,z,ty,((M,tok('src',T,sym(J))),),None))
    return st,z,M
RANGES=[('cops','insert_fi','end','u'),('cops','insert_ii','end','u'),('cops','insert_h_fi','hint','u'),('cops','insert_h_ii','hint','u'),
 ('cops','insert_clb_fi','CLB','u'),('cops','insert_cl_fi','CL','u'),('cops','insert_l_fi','L','u'),
 ('cops','insert_loc','end','CL'),('cops','insert_h_loc','hint','CL'),('cops','insert_locb','end','CLB'),('cops','insert_h_locb','hint','CLB'),
 ('whole','insert_g','end','G'),('whole','insert_hg','hint','G')]
MRANGES=[('cops','insert_ri','end','u'),('cops','insert_h_ri','hint','u'),('cops','insert_clb_ri','CLB','u'),('cops','insert_cl_ri','CL','u')]
def ob_range(S,T,cls,nm,pos,src,cname,alt=False,m=None):
    out=[]; cfg=cfgs(T)[cname]
    colls={'a':cfg}
    if src!='u': colls['b']=[(T,'gen')]
    st0=S.build(colls,alt); K=sym('K') if cname!='fresh' else ZERO
    sv=S.w.stores(st0,S.w.seg_of(st0,'a',T)[1])[1]
    if cname!='fresh': st0=st0.assume(K).assume(sv[2]-K)
    for pl,pa,idx in positions(S,st0,pos,T,cfg,K):
        r=Run('%s<%s>%s'%(nm,T,pl),cname+('/alt' if alt else '')+('' if m is None else '/range of %d'%m)); out.append(r); st=st0
        if pl=='@own': st=st.assume(sv[2]-K-1)
        if pl=='@other':
            t2=next(t for t,q in cfg if t!=T and q=='gen')
            st=st.assume(S.w.stores(st,S.w.seg_of(st,'a',t2)[1])[1][2]-K-1)
        if src=='u':
            st,z,M=src_vec(S,st,T,m)
            f=S.w.fn(cls,nm,T); c=S.I.cls(f['ps'][1+len(pa)]['t'])
            fld=[g['id'] for g in S.p.recs[c]['fields']]
            args=[Rec(c,{'p':B('bsrc',0)}),Rec(c,{'p':B('bsrc',M.scale(z))})]
            elem=tok('src',T,sym(J)); first=ZERO
        else:
            KB,M=sym('KB'),sym('M') if m is None else Aff.of(m)
            nb=S.w.stores(st,S.w.seg_of(st,'b',T)[1])[1][2]
            st=st.assume(KB).assume(M).assume(nb-KB-M)
            args=[]
            if src=='G': args=[S.it_g(st,'b',T,KB),S.it_g(st.assume(nb-KB-M-1),'b',T,KB+M)]; st=st.assume(nb-KB-M-1)
            else: args=[iter_at(S,st,src,T,KB,'b'),iter_at(S,st,src,T,KB+M,'b')]
            elem=tok('el','b',T,sym(J)+KB)
        st=S.snap(st,['a']+(['b'] if 'b' in colls else []),idx=idx if idx is not None else sv[2],M=M,elem=elem)
        def ok(x,v):
            s0=S.seg(S.pre(x,'a'),T); i=S.val(x,'idx'); mm=S.val(x,'M'); e=S.val(x,'elem')
            want=zones(S,r,x,lambda:ztake(s0[6],i,x.cons)+[(mm,e)]+zdrop(s0[6],i,x.cons))
            if want is None: return
            q=S.effect(r,['C02'],x,'a',T,want); S.untouched(r,x,'a',(T,)); common(S,r,x)
            if 'b' in colls: S.untouched(r,x,'b',(),'source: ',('C10','C05'))
            else:
                zz=x.mem[('u','src')][6]
                if nm.endswith('_ri'):
                    if any(y[0]=='copy' and isinstance(y[2],tuple) and y[2][:2]==('B','bsrc') for y in flat(x.ev)): r.bad(['C10'],'elements given as rvalues are copied')
                elif not same_zones(zz,((mm,tok('src',T,sym(J))),),x.cons): r.bad(['C10'],'the source range is modified')
            mv=[y for y in flat(x.ev) if y[0]=='move' and (isb(S,x,y[2]) or isinstance(y[2],tuple) and y[2][0]=='B' and y[2][1]=='bsrc')]
            if mv and not nm.endswith('_ri'): r.bad(['C10'],'elements of the source range are moved from')
            if q is None: return
            stable(S,r,x,s0,q,mm)
            if pos in('CLB','CL','L','LB'): check_ret(S,r,x,v,pos,T,i)
            S.views(r,['C01'],x,'a')
        def ex(x,e,lab):
            if xname(e) not in('user','bad_alloc'): r.bad(['C07','C05'],'%s thrown for a registered type'%xname(e)); return
            S.untouched(r,x,'a',(T,),lab); common(S,r,x,lab)
            if 'b' in colls: S.untouched(r,x,'b',(),lab+'source: ',('C10','C05'))
            S.views(r,['C01'],x,'a',lab)
        S.I.unroll=0 if m is None else m+3
        try: go(S,r,st,cls,nm,[A()]+pa+args,T if cls!='whole' else '',ok,ex)
        finally: S.I.unroll=0
    return out
def ob_grange(S,acfg,bcfg,hint):
    """insertion of a global range that spans several segments of another collection"""
    out=[]; st0=S.build({'a':acfg,'b':bcfg}); K=sym('K'); at=dict(acfg)
    cands=[None]+[t for t,m in acfg if m=='gen'] if hint else [0]
    for h in cands:
        st=st0; pa=[]
        if hint and h is None: pa=[S.it_end(st,'a')]
        elif hint:
            n=S.w.stores(st,S.w.seg_of(st,'a',h)[1])[1][2]
            st=st.assume(K).assume(n-K-1); pa=[S.it_g(st,'a',h,K)]
        r=Run(('insert_hg' if hint else 'insert_g')+('' if not hint else '@'+(h or 'end')),'+'.join(t for t,_ in acfg)+' <- '+'+'.join('%s:%s'%q for q in bcfg)); out.append(r)
        f=next((S.it_g(st,'b',t,ZERO) for t,m in bcfg if m not in('fresh',0)),None); l=S.it_end(st,'b')
        st=S.snap(st,['a','b'],K=K)
        def ok(x,v):
            pre=S.pre(x,'a'); k=S.val(x,'K'); mine=[]
            for t,m in bcfg:
                if m in('fresh',0): continue
                mine.append(t); s0=S.seg(pre,t); z=s0[6] if s0 is not None else ()
                new=[(ONE,tok('el','b',t,Aff.of(i))) for i in range(m)]
                want=zones(S,r,x,lambda:ztake(z,k,x.cons)+new+zdrop(z,k,x.cons) if hint and t==h else list(z)+new)
                if want is None: return
                if S.effect(r,['C02'] if s0 is not None else ['C02','C07'],x,'a',t,want) is None: return
            S.untouched(r,x,'a',mine); common(S,r,x)
            S.untouched(r,x,'b',(),'source: ',('C10','C05'))
            if [y for y in flat(x.ev) if y[0]=='move' and isb(S,x,y[2])]: r.bad(['C10'],'elements of the source range are moved from')
            S.views(r,['C01'],x,'a')
        def ex(x,e,lab):
            if xname(e) not in('user','bad_alloc'): r.bad(['C07','C05'],'%s thrown'%xname(e)); return
            S.untouched(r,x,'a',[t for t,_ in bcfg],lab); common(S,r,x,lab)
            S.untouched(r,x,'b',(),lab+'source: ',('C10','C05')); S.views(r,['C01'],x,'a',lab)
        S.I.unroll=8
        try: go(S,r,st,'whole','insert_hg' if hint else 'insert_g',[A()]+pa+[f,l],'',ok,ex)
        finally: S.I.unroll=0
    return out
# ---- capacity and whole-collection operations -------------------------------------
def ob_unchanged(S,cls,nm,T,cfg,extra,skip,props,post=None,noex=False,alt=False):
    """operations that keep all elements: reserve, shrink_to_fit"""
    r=Run('%s<%s>'%(nm,T) if T else nm,'+'.join(t+':'+str(m) for t,m in cfg)+('/alt' if alt else ''))
    st=S.build({'a':cfg},alt)
    args=[A()]
    if nm.endswith('_i'): args.append(S.ti(T,1 if alt else 0))
    for e in extra: st=st.assume(e); args.append(e)
    st=S.snap(st,['a'],**{'e%d'%i:e for i,e in enumerate(extra)})
    mine=[T] if T else [t for t,_ in cfg]
    def ok(x,v):
        pre=S.pre(x,'a')
        for t in mine:
            s0=S.seg(pre,t)
            q=S.effect(r,props,x,'a',t,s0[6])
            if q is None: return
            if post: post(S,r,x,s0,q)
        S.untouched(r,x,'a',mine,'',('C08','C05','C04')); common(S,r,x)
        S.views(r,['C01'],x,'a')
        usable(S,r,x,'a',(T or cfg[0][0],),'',('C01','C08'),True)
    def ex(x,e,lab):
        if xname(e) not in('user','bad_alloc'): r.bad(['C07'],'%s thrown for a registered type'%xname(e)); return
        S.untouched(r,x,'a',mine,lab,('C08','C05','C04')); common(S,r,x,lab)
        for t in mine:
            s0=S.seg(S.pre(x,'a'),t)
            S.effect(r,['C01','C08'],x,'a',t,s0[6],lab)
        S.views(r,['C01'],x,'a',lab)
    go(S,r,st,cls,nm,args,T if cls=='ops' else '',ok,ex)
    return [r]
def p_reserve(S,r,x,s0,q):
    n=S.val(x,'e0')
    if not x.cons.entails(q[5]-n): r.bad(['C04','C08'],'the capacity after reserve can be smaller than requested')
    y=x.assume(s0[5]-n)
    if not y.dead() and (q[3]!=s0[3] or q[7]!=s0[7] and not y.assume(s0[4]-1).dead()): r.bad(['C04'],'reserve within the capacity moves the storage')
def p_same(S,r,x,s0,q):
    # a segment with room to give back is asked for it (the request is not binding)
    y=x.assume(s0[4]-1).assume(s0[5]-s0[4]-1)
    if y.dead() or y.cons.entails_eq(q[5]-q[4]): return
    if not any(e[0]=='shr' and e[1]==s0[3] for e in flat(x.ev)): r.bad(['C08'],'the storage of the segment of %s is not shrunk'%s0[0][4:])
def ob_reserve(S,T,how,alt=False):
    cfg={'whole':[('D1','gen'),('D2','gen')],'i':cfgs(T)['mid'],'t':cfgs(T)['mid']}[how]
    N=sym('N')
    return ob_unchanged(S,'whole' if how!='t' else 'ops',{'whole':'reserve','i':'reserve_i','t':'reserve'}[how],T if how!='whole' else '',cfg,[N],None,['C08','C04'],p_reserve,alt=alt)
def ob_shrink(S,T,how,alt=False):
    out=[]
    for cfg in ({'whole':[('D1','gen'),('D2','gen')],'i':cfgs(T)['mid'],'t':cfgs(T)['mid']}[how],{'whole':[('D1','fresh'),('D3','gen')],'i':cfgs(T)['fresh'],'t':cfgs(T)['fresh']}[how]):
        out+=ob_unchanged(S,'whole' if how!='t' else 'ops',{'whole':'shrink','i':'shrink_i','t':'shrink'}[how],T if how!='whole' else '',cfg,[],None,['C08'],p_same,alt=alt)
    return out
def ob_clear(S,T,how,alt=False):
    out=[]
    for cfg in ([('D1','gen'),('D2','fresh'),('D3','gen')],cfgs(T)['mid']):
        nm={'whole':'clear','i':'clear_i','t':'clear'}[how]; cls='whole' if how!='t' else 'ops'
        if how!='whole' and T not in[t for t,_ in cfg]: continue
        r=Run('%s<%s>'%(nm,T),'+'.join(t+':'+m for t,m in cfg)); out.append(r)
        st=S.build({'a':cfg},alt); args=[A()]
        if how=='i': args.append(S.ti(T,1 if alt else 0))
        st=S.snap(st,['a'])
        mine=[T] if how!='whole' else [t for t,_ in cfg]
        def ok(x,v):
            for t in mine:
                if S.effect(r,['C08'],x,'a',t,[]) is None: return
            S.untouched(r,x,'a',mine,'',('C08','C05','C04')); common(S,r,x)
            S.views(r,['C01','C08'],x,'a')
            usable(S,r,x,'a',(T,),'',('C01','C08'),True)
        def ex(x,e,lab):
            if how=='i' and xname(e)=='bad_alloc' or how=='t' and xname(e)=='bad_alloc':
                S.untouched(r,x,'a',(),lab); S.views(r,['C01'],x,'a',lab)   # the descriptor cache
            else: r.bad(['C17','C08'],'clear can throw %s'%xname(e))
        go(S,r,st,cls,nm,args,T if cls=='ops' else '',ok,ex)
    return out
# ---- queries ----------------------------------------------------------------------
def ob_query(S,cfg,alt=False):
    out=[]
    r=Run('queries','+'.join(t+':'+str(m) for t,m in cfg)+('/alt' if alt else '')); out.append(r)
    st=S.build({'a':cfg},alt)
    st=S.snap(st,['a'])
    P=['C08']+(['C06'] if alt else [])
    pre=lambda x:S.pre(x,'a')
    S.query(r,P,st,'whole','size',[A()],'',lambda x:sum((q[4] for q in pre(x)),ZERO))
    S.query(r,P,st,'whole','empty',[A()],'',lambda x:('c','>=0',-sum((q[4] for q in pre(x)),ZERO)))
    for i,(t,_) in enumerate(cfg):
        for v in (0,1):
            ti=S.ti(t,v); Q=P+(['C06'] if v else [])
            S.query(r,Q,st,'whole','is_reg_i',[A(),ti],'',lambda x:True)
            S.query(r,Q,st,'whole','size_i',[A(),ti],'',lambda x:pre(x)[i][4])
            S.query(r,Q,st,'whole','cap_i',[A(),ti],'',lambda x:pre(x)[i][5])
            S.query(r,Q,st,'whole','empty_i',[A(),ti],'',lambda x:('c','>=0',-pre(x)[i][4]))
        S.query(r,P,st,'ops','is_reg',[A()],t,lambda x:True)
        S.query(r,P,st,'ops','size',[A()],t,lambda x:pre(x)[i][4])
        S.query(r,P,st,'ops','cap',[A()],t,lambda x:pre(x)[i][5])
        S.query(r,P,st,'ops','empty',[A()],t,lambda x:('c','>=0',-pre(x)[i][4]))
    have=[t for t,_ in cfg]
    for t in('D1','D2','D3'):
        if t in have: continue
        for v in (0,1): S.query(r,['C07','C06'],st,'whole','is_reg_i',[A(),S.ti(t,v)],'',lambda x:False)
        S.query(r,['C07'],st,'ops','is_reg',[A()],t,lambda x:False)
    S.views(r,['C01','C08','C09'],st,'a')
    # the mutable traversal and the segment views
    def now(x): return pre(x)
    S.observe(r,['C09','C01'],st,'whole','visit_m',[A()],lambda x:[S.full(x,q) for q in now(x)])
    return out
VI=['visit_seg_i','visit_segc_i','visit_segk_i','visit_ci','visit_mi','visit_idx_i','visit_add_i','visit_sub_i','visit_lt_i','visit_dec_i']
VT=['visit_ct','visit_mt','visit_seg_t','visit_segc_t','visit_segk_t','visit_idx_t','visit_add_t','visit_sub_t','visit_lt_t','visit_dec_t']
VTI=['visit_segb_t','visit_segbc_t','visit_segbk_t','visit_fb','visit_fbm']
def ob_views(S,cfg,v=0):
    """every other way of reaching the elements: segment views, index and arithmetic of local iterators, conversions"""
    r=Run('views','+'.join(t+':'+str(m) for t,m in cfg)+('/alt' if v else ''))
    st=S.build({'a':cfg}); s0=S.snapshot(st,'a'); st=st.set(('snap2',),('SNAP',s0,())); a=[A()]
    now=lambda x:x.mem[('snap2',)][1]
    P=['C09','C01']+(['C06'] if v else [])
    for nm in('visit_mc','visit_cb'): S.observe(r,P,st,'whole',nm,a,lambda x:[S.full(x,q) for q in now(x)])
    for nm in('visit_stm','visit_stc','visit_stk'): S.observe(r,P+['C08'],st,'whole',nm,a,lambda x:[y for q in now(x) for y in(('ti',q[0]),S.full(x,q))])
    for i,q in enumerate(s0):
        T=q[0][4:]
        for nm in VI: S.observe(r,P,st,'whole',nm,a+[S.ti(T,v)],lambda x:[S.full(x,now(x)[i])])
        for nm in VT: S.observe(r,P,st,'ops',nm,a,lambda x:[S.full(x,now(x)[i],False)],T)
        for nm in VTI: S.observe(r,P,st,'ops',nm,a+[S.ti(T,v)],lambda x:[S.full(x,now(x)[i],False)],T)
        for nm in('visit_tb','visit_tbm'): S.observe(r,P,st,'ops',nm,a,lambda x:[S.full(x,now(x)[i])],T)
    return [r]
TYPED_BAD=[('ops','begin'),('ops','end'),('ops','cbegin'),('ops','cend'),('ops','cbegin2'),('ops','cend2'),('ops','empty'),('ops','size'),('ops','max_size'),('ops','cap'),
  ('ops','shrink'),('ops','clear'),('ops','seg_begin'),('ops','cseg_begin'),
  ('whole','begin_i'),('whole','end_i'),('whole','cbegin_i'),('whole','cend_i'),('whole','cbegin2_i'),('whole','cend2_i'),('whole','empty_i'),('whole','size_i'),
  ('whole','max_size_i'),('whole','cap_i'),('whole','reserve_i'),('whole','shrink_i'),('whole','clear_i'),('whole','seg_begin_i'),('whole','cseg_begin_i')]
def ob_unreg(S,T,cname,alt=False):
    """operations naming a type that is not registered"""
    out=[]; cfg=nocfgs(T)[cname]
    for cls,nm in TYPED_BAD:
        r=Run('%s<%s>'%(nm,T),'unregistered/'+cname); out.append(r)
        st=S.build({'a':cfg},alt); st=S.snap(st,['a'])
        args=[A()]
        if nm.endswith('_i'): args.append(S.ti(T))
        if nm=='reserve_i': args.append(sym('N')); st=st.assume(sym('N'))
        def ex(x,e,lab):
            if xname(e)!='unregistered_type': 
                if xname(e)=='bad_alloc': return
                r.bad(['C07'],'%s instead of unregistered_type'%xname(e)); return
            payload(r,['C07'],e,T)
            S.untouched(r,x,'a',(),lab,('C07','C05')); common(S,r,x,lab)
        go(S,r,st,cls,nm,args,T if cls=='ops' else '',None,ex,['C07'])
    # the creating operations
    for cls,nm,src in (('ops','reg',None),('ops','reserve','N'),('ops','emplace','emplace'),('ops','emplace_hint','emplace'),('ops','insert_m','m'),('ops','insert_hm','m'),('cops','insert_c','c'),('cops','insert_hc','c'),('cops','insert_fi','fi'),('cops','insert_loc','loc'),('whole','insert_g','g')):
        if T=='D3' and cls!='ops': continue
        if nm=='insert_g' and T=='D3': continue
        r=Run('%s<%s>'%(nm,T),'creating/'+cname); out.append(r)
        st=S.build({'a':cfg,'b':[(T,'gen')]},alt)
        args=[A()]
        if nm in('emplace_hint','insert_hm','insert_hc'): args.append(S.it_end(st,'a'))
        want=[]
        if src=='N': st=st.assume(sym('N')); args.append(sym('N'))
        elif src in('emplace','m','c'):
            st,a,e=source(S,st,src,T); args+=a; want=[(ONE,e)]
        elif src=='fi':
            st,z,M=src_vec(S,st,T); f=S.w.fn(cls,nm,T); c=S.I.cls(f['ps'][1]['t'])
            args+=[Rec(c,{'p':B('bsrc',0)}),Rec(c,{'p':B('bsrc',M.scale(z))})]; want=[(M,tok('src',T,sym(J)))]
        elif src in('loc','g'):
            nb=S.w.stores(st,S.w.seg_of(st,'b',T)[1])[1][2]; KB,M=sym('KB'),sym('M')
            st=st.assume(KB).assume(M).assume(nb-KB-M-1)
            k='CL' if src=='loc' else 'G'
            args+=[iter_at(S,st,k,T,KB,'b'),iter_at(S,st,k,T,KB+M,'b')]; want=[(M,tok('el','b',T,sym(J)+KB))]
        st=S.snap(st,['a','b'],want=tuple(want),N=sym('N'))
        def ok(x,v):
            w=S.val(x,'want')
            n=sum((z[0] for z in w),ZERO)
            if S.seg(S.snapshot(x,'a'),T) is None:
                # an empty range creates nothing
                if src in('fi','loc','g') and x.cons.entails_eq(n):
                    S.untouched(r,x,'a',()); return
                r.bad(['C07','C02'],'no segment is created'); return
            q=S.effect(r,['C02','C07'],x,'a',T,w)
            S.untouched(r,x,'a',(T,)); common(S,r,x)
            if src in('loc','g'): S.untouched(r,x,'b',(),'source: ')
            if q is None: return
            if src=='N' and not x.cons.entails(q[5]-S.val(x,'N')): r.bad(['C04'],'reserved capacity too small')
            if src in('emplace','m','c'): check_ret(S,r,x,v,'end' if nm in('emplace','insert_m','insert_c') else 'hint',T,ZERO)
            S.views(r,['C01'],x,'a')
        def ex(x,e,lab):
            if xname(e) not in('user','bad_alloc'): r.bad(['C07'],'%s thrown by an operation that creates the segment'%xname(e)); return
            S.untouched(r,x,'a',(T,),lab); common(S,r,x,lab)
            S.views(r,['C01','C14'],x,'a',lab)
        go(S,r,st,cls,nm,args,T if cls!='whole' else '',ok,ex)
    # insertion through the value type
    for nm,pos,src in (('insert_v','end','vc'),('insert_hv','hint','vc'),('insert_vm','end','vm')):
        r=Run('%s<%s>'%(nm,T),'unregistered value/'+cname); out.append(r)
        st=S.build({'a':cfg,'b':[(T,'gen')]},alt)
        st,a,e=source(S,st,src,T)
        args=[A()]+([S.it_end(st,'a')] if pos=='hint' else [])+a
        st=S.snap(st,['a','b'])
        def ex(x,e,lab):
            if xname(e)!='unregistered_type':
                if xname(e)=='bad_alloc': return
                r.bad(['C07'],'%s instead of unregistered_type'%xname(e)); return
            payload(r,['C07'],e,T)
            S.untouched(r,x,'a',(),lab,('C07','C05')); S.untouched(r,x,'b',(),lab,('C07','C10')); common(S,r,x,lab)
        go(S,r,st,'vops',nm,args,'',None,ex,['C07'])
    return out
def ob_subtype(S,T,cname):
    """an object whose dynamic type derives from the static type T and is not registered"""
    out=[]; cfg=cfgs(T)[cname] if cname in cfgs(T) else nocfgs(T)[cname]
    for cls,nm in(('ops','insert_m'),('ops','insert_hm'),('cops','insert_c'),('cops','insert_n'),('cops','insert_hc'),('cops','insert_hn')):
        if T=='D3' and cls=='cops': continue
        r=Run('%s<%s>'%(nm,T),'object of an unregistered derived type/'+cname); out.append(r)
        st=S.build({'a':cfg}); st=st.set(('u','x'),tok('val','x','vt::Derived',0))
        args=[A()]+([S.it_end(st,'a')] if nm.startswith('insert_h') else [])+[L(('u','x'))]
        st=S.snap(st,['a'])
        def ex(x,e,lab):
            if xname(e)!='unregistered_type':
                if xname(e)=='bad_alloc': return
                r.bad(['C07'],'%s instead of unregistered_type'%xname(e)); return
            payload(r,['C07'],e,'Derived')
            if x.mem.get(('u','x'))!=tok('val','x','vt::Derived',0): r.bad(['C07','C10'],'the rejected object is modified')
            S.untouched(r,x,'a',(),lab,('C07','C05')); common(S,r,x,lab)
        go(S,r,st,cls,nm,args,T,None,ex,['C07'])
    return out
def ob_reg(S,T,cname,alt=False):
    """registering a type that already is: nothing changes"""
    r=Run('reg<%s>'%T,cname); cfg=cfgs(T)[cname]
    st=S.snap(S.build({'a':cfg},alt),['a'])
    def ok(x,v):
        S.untouched(r,x,'a',(),'',('C07','C05','C04')); common(S,r,x); S.views(r,['C01'],x,'a')
    go(S,r,st,'ops','reg',[A()],T,ok,std_ex(S,r,T,skip=()))
    return [r]

def setup_spec(S):
    """representation check: the general states must show their elements through every
    view; otherwise the states are built through the interface only"""
    S.after=None; S.w.api=False
    r=Run('gate','')
    try:
        st=S.build({'a':[('D1','gen'),('D2','gen'),('D3','gen')]})
        S.views(r,['C01'],st,'a')
    except Exception as e: r.undecided.append('gate: %r'%e)
    S.w.api=bool(r.findings or r.undecided)
    S.vcache.clear()
    S.after=invariant
    return r
