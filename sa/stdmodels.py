"""Specifications of the standard-library (and Boost.TypeErasure) operations the
library is built on.  These are the trusted base of the analysis."""
from poly import Aff,Cons,sym,ZERO,ONE
from interp import *
M={}
def model(*names):
    def d(f):
        for n in names: M[n]=f
        return f
    return d
EXC_USER=tok('exc','user'); EXC_ALLOC=tok('exc','bad_alloc')
def arg(I,f,args,i,st):
    """value of parameter i (reads through reference parameters)"""
    if I.isref(f['ps'][i]['t']): return I.rd(st,args[i])
    return st,args[i]
def rett(I,f,st,v):
    """a returned value; materialised when the function returns a reference"""
    return [(st,v)]
def top(st,why): return [(st.mktop(why),TOP(why))]
# ---- identity-like --------------------------------------------------------
@model('std::move','std::forward','std::as_const','boost::addressof','std::addressof','std::__addressof','boost::core::addressof','std::move_if_noexcept','std::launder','boost::get_pointer','boost::ref','boost::forward','boost::move','std::__niter_base')
def m_id(I,f,this,args,st,n): return [(st,args[0])]
@model('std::swap')
def m_swap(I,f,this,args,st,n):
    t=I.ty(I.ty(f['ps'][0]['t'])['p'])
    if t['k']=='rec' and not I.trivial(I.ty(f['ps'][0]['t'])['p']):
        R=I.p.recs.get(t['r'])
        if R and R['sq'] not in('std::unique_ptr','std::vector','std::unordered_map','std::function'):
            if not all(x[0]=='T' for x in (I.rd(st,args[0])[1],I.rd(st,args[1])[1]) if isinstance(x,tuple)): return top(st,'swap')
    st,a=I.rd(st,args[0]); st,b=I.rd(st,args[1])
    return [(I.wr(I.wr(st,args[0],b),args[1],a),None)]
@model('std::exchange')
def m_exchange(I,f,this,args,st,n):
    st,a=I.rd(st,args[0]); st,b=arg(I,f,args,1,st)
    return [(I.wr(st,args[0],b),a)]
@model('std::min','std::max')
def m_minmax(I,f,this,args,st,n):
    if len(args)!=2: return top(st,'minmax')
    st,a=I.rd(st,args[0]); st,b=I.rd(st,args[1])
    if not(isinstance(a,Aff) and isinstance(b,Aff)): return top(st,'minmax')
    mx=f['sq']=='std::max'
    out=[]
    for x,r in I.branch(st,I.cmp('<',a,b,st) if mx else I.cmp('<',b,a,st)): out.append((x,args[1] if r else args[0]))
    return out
@model('boost::integral_constant::operator const mpl_::bool_ &','boost::integral_constant::operator const mpl_::integral_c &')
def m_icref(I,f,this,args,st,n): return [(st,this)]
@model('boost::integral_constant::operator const bool &','boost::integral_constant::operator bool','std::integral_constant::operator bool','std::integral_constant::operator()')
def m_ic(I,f,this,args,st,n): return NotImplemented
@model('std::piecewise_construct_t::piecewise_construct_t','std::allocator_arg_t::allocator_arg_t','std::initializer_list::initializer_list','boost::is_convertible::is_convertible','std::integral_constant::integral_constant')
def m_emptyctor(I,f,this,args,st,n):
    if this is not None: st=I.wr(st,this,Rec(f['cls'],{}))
    return [(st,None)]
# ---- type_info -------------------------------------------------------------
def tiname(a):
    if isinstance(a,tuple) and a[0]=='L' and isinstance(a[1],tuple) and a[1][0]=='ti': return a[1][1]
    return None
@model('std::type_info::operator==','std::type_info::operator!=')
def m_tieq(I,f,this,args,st,n):
    a,b=(this,args[0]) if this is not None else (args[0],args[1])
    x,y=tiname(a),tiname(b)
    if x is None or y is None: return top(st,'ti==')
    st=st.event('tieq')if False else st
    return [(st,(x==y) if f['sq'].endswith('==') else (x!=y))]
@model('std::operator==')
def m_stdeq(I,f,this,args,st,n): return m_eqdisp(I,f,this,args,st,n)
@model('std::type_info::hash_code')
def m_hash(I,f,this,args,st,n):
    x=tiname(this)
    return [(st,tok('hash',x))] if x is not None else top(st,'hash')
@model('std::type_info::before','std::type_info::name')
def m_tin(I,f,this,args,st,n): return [(st,('c','op',tok('before',tiname(this),tiname(args[0])))) if args else (st,tok('name',tiname(this)))]
@model('std::type_index::type_index')
def m_tix(I,f,this,args,st,n):
    if f.get('sk'): return NotImplemented
    return [(I.wr(st,this,tok('tix',args[0])),None)]
# ---- allocators --------------------------------------------------------------
def alid(v):
    if isinstance(v,tuple) and v[0]=='R': return rget(v,'id')
    return TOP('al')
@model('vt::alloc::alloc')
def m_alctor(I,f,this,args,st,n):
    if not f['ps']: v=None; i=tok('al','default')
    else: st,v=arg(I,f,args,0,st)
    if v is None: pass
    elif isinstance(v,tuple) and v[0]=='R': i=rget(v,'id')
    else: i=tok('al',v)
    _,cur=I.rd(st,this)
    if isinstance(cur,tuple) and cur and cur[0]=='R': return [(I.wr(st,this,rset(cur,'id',i)),None)]
    return [(I.wr(st,this,Rec(f['cls'],{'id':i})),None)]
@model('vt::alloc::operator=')
def m_alasg(I,f,this,args,st,n):
    st,v=I.rd(st,args[0]); st,c=I.rd(st,this)
    return [(I.wr(st,this,rset(c,'id',rget(v,'id'))),this)]
def aleq(I,st,a,b):
    """[(state,bool)]"""
    if a==b: return [(st,True)]
    if istop(a) or istop(b): return [(st.mktop('aleq'),True)]
    return I.branch(st,('c','op',tok('aleq',*sorted((a,b),key=str))))
@model('vt::alloc::operator==','vt::alloc::operator!=')
def m_aleq(I,f,this,args,st,n):
    st,a=I.rd(st,this); st,b=I.rd(st,args[0])
    ne=f['sq'].endswith('!=')
    return [(x,r!=ne) for x,r in aleq(I,st,alid(a),alid(b))]
@model('vt::alloc::allocate')
def m_alalloc(I,f,this,args,st,n): return m_allocate(I,f,None,[this]+list(args),st,n)
@model('vt::alloc::deallocate')
def m_aldealloc(I,f,this,args,st,n): return m_deallocate(I,f,None,[this]+list(args),st,n)
@model('vt::alloc::select_on_container_copy_construction')
def m_usoccc(I,f,this,args,st,n):
    st,v=I.rd(st,this)
    return [(st,rset(v,'id',tok('al','soccc',rget(v,'id'))))]
@model('std::allocator_traits::select_on_container_copy_construction')
def m_soccc(I,f,this,args,st,n):
    # dispatch to the allocator's own hook when it has one
    st,v=I.rd(st,args[0])
    c=I.cls(f['ps'][0]['t']); g=I.soccc(c) or I.usoccc(c)
    if g is not None: return I.call(g,args[0],[],st,n)
    return [(st,v)]
def soccc_value(I,st,al):
    """allocator chosen by a container copy: [(state,value)]"""
    g=(I.soccc(al[1]) or I.usoccc(al[1])) if isinstance(al,tuple) and al[0]=='R' else None
    if g is None: return [(st,al)]
    st,a=I.mat(st,al,None)
    return I.call(g,a,[],st,None)
@model('std::allocator_traits::allocate')
def m_allocate(I,f,this,args,st,n):
    st,al=I.rd(st,args[0])
    I.throw(st,EXC_ALLOC)
    k=args[1]
    if not(isinstance(k,Aff) and k==ONE): return top(st,'allocate n')
    oid=('seg',I.uid())
    return [(st.set(oid,('A',alid(al))).event('alloc',oid,alid(al)),L(oid))]
@model('std::allocator_traits::deallocate')
def m_deallocate(I,f,this,args,st,n):
    st,al=I.rd(st,args[0]); p=args[1]
    if not(isinstance(p,tuple) and p[0]=='L'): return top(st,'deallocate')
    if p[1] not in st.mem: return [(st.event('VIOL','storage released twice',I.trace()),None)]
    v=st.mem[p[1]]
    if v==('FREED',): return [(st.event('VIOL','storage released twice',I.trace()),None)]
    if not(v[0] in('A','D')): st=st.event('VIOL','storage released while its object is alive',I.trace())
    return [(st.set(p[1],('FREED',)).event('dealloc',p[1],alid(al)),None)]
def user_construct(I,st,p,T,args,ats,al):
    """construct a T at p from args (addresses); al: allocator id or None"""
    I.throw(st,EXC_USER)
    name=I.uq(T)
    if len(args)==1 and I.isref(ats[0]) and I.uq(I.ty(ats[0])['p'])==name:
        st,v=I.rd(st,args[0])
        if isinstance(v,tuple) and v[:2]==('T','raw'): st=st.event('VIOL','element read outside the stored elements',I.trace())
        if I.ty(ats[0])['k']=='rref' and not I.ty(I.ty(ats[0])['p'])['s'].startswith('const '):
            st=st.event('move',name,args[0])
            st=I.wr(st,args[0],tok('moved',v))
        else: st=st.event('copy',name,args[0])
    else:
        vs=[]
        for a,t in zip(args,ats):
            if I.isref(t):
                st,x=I.rd(st,a)
                k=I.ty(t)['k']; pt=I.ty(t)['p']
                vs.append((('x' if k=='rref' else 'l'),I.ty(pt)['s'],x))
                if k=='rref' and not I.ty(pt)['s'].startswith('const ') and isinstance(x,tuple) and x[:1]==('T',): st=I.wr(st,a,tok('moved',x))
            else: vs.append(('v',I.ty(t)['s'],a))
        v=tok('new',name,tuple(vs))
    st=st.event('cons',al,name)
    return [(I.wr(st,p,v),None)]
@model('std::allocator_traits::construct')
def m_construct(I,f,this,args,st,n):
    acls=I.cls(f['ps'][0]['t'])
    R=I.p.recs.get(acls)
    T=I.ty(f['ps'][1]['t'])['p']
    ats=[p['t'] for p in f['ps'][2:]]
    if R and R['in'] and R['sq'].endswith('allocator_adaptor'):
        g=find_construct(I,acls,f['ps'][1]['t'],ats)
        if g is not None: return I.call(g['id'],args[0],args[1:],st,n)
        return top(st,'construct?')
    st,al=I.rd(st,args[0])
    return user_construct(I,st,args[1],T,args[2:],ats,alid(al))
@model('std::allocator_traits::destroy')
def m_destroy(I,f,this,args,st,n):
    st,al=I.rd(st,args[0])
    T=I.ty(f['ps'][1]['t'])['p']
    R=I.p.recs.get(I.cls(f['ps'][0]['t']))
    if R and R['in'] and R['sq'].endswith('allocator_adaptor'):
        for g in I.p.byname.get('boost::poly_collection::detail::allocator_adaptor::destroy',()):
            if I.p.tstr(g['ps'][0]['t'])==I.p.tstr(f['ps'][1]['t']): return I.call(g['id'],args[0],args[1:],st,n)
    st=st.event('destr',alid(al),I.uq(T))
    return [(I.wr(st,args[1],('D',)),None)]
def find_construct(I,acls,pt,ats):
    """the construct member of the allocator adaptor that a container calls"""
    want=[I.p.tstr(pt)]+[I.p.tstr(t) for t in ats]
    best=None
    for g in I.p.byname.get('boost::poly_collection::detail::allocator_adaptor::construct',()):
        if 'body' not in g: continue
        have=[I.p.tstr(p['t']) for p in g['ps']]
        if have==want:
            if g['cls']==acls: return g
            best=best or g
    return best
# ---- user element types --------------------------------------------------------
def user_type(n):
    base='vt::'+n
    @model(base+'::'+n)
    def ctor(I,f,this,args,st,node):
        if this is None: return top(st,'uctor')
        return user_construct(I,st,this,I.rectype(f['cls']),args,[p['t'] for p in f['ps']],None)
    @model(base+'::operator=')
    def asg(I,f,this,args,st,node):
        I.throw(I.wr(st,this,tok('junk',I.uid())) if False else st,EXC_USER)
        st,v=I.rd(st,args[0])
        mv=f.get('sk')=='ma'
        st=st.event('massign' if mv else 'assign',f['sq'],this,args[0])
        if this!=args[0] and mv: st=I.wr(st,args[0],tok('moved',v))
        return [(I.wr(st,this,v),this)]
    @model(base+'::operator==')
    def eq(I,f,this,args,st,node):
        I.throw(st,EXC_USER)
        a,b=(this,args[0]) if this is not None else (args[0],args[1])
        st,x=I.rd(st,a); st,y=I.rd(st,b)
        return [(st.event('ueq',x,y),('c','op',tok('eq',x,y)))]
    @model(base+'::operator()',base+'::f')
    def callop(I,f,this,args,st,node):
        I.throw(st,EXC_USER)
        return [(st.event('ucall',this),I.fresh('r'))]
    def dtor(I,R,addr,st):
        st,v=I.rd(st,addr)
        return [I.wr(st.event('destr',None,R['s'] if 's' in R else R['q']),addr,('D',))]
    M['~'+base]=dtor
for n in('D1','D2','D3','base','pad'): user_type(n)
# ---- iterators of vectors: the pointer itself -----------------------------------
@model('__gnu_cxx::__normal_iterator::__normal_iterator')
def m_nictor(I,f,this,args,st,n):
    if not args: return [(I.wr(st,this,NULL),None)]
    st,v=arg(I,f,args,0,st)
    return [(I.wr(st,this,v),None)]
def niesz(I,f):
    return None
def vesz(I,st,p):
    o=I.vecs(st).get(p[1]) if isinstance(p,tuple) and p[0]=='B' else None
    return o[1][4] if o else None
def padd(I,st,p,k):
    if isinstance(p,tuple) and p==NULL and k==ZERO: return st,p
    z=vesz(I,st,p)
    if z is None:
        if isinstance(p,tuple) and p[0]=='B' and not istop(p): return st.event('VIOL','arithmetic on an iterator into released storage',I.trace()),TOP('dangling')
        return st.mktop('nit'),TOP('nit')
    r=I.ptradd(p,k,z)
    return st,r
@model('__gnu_cxx::__normal_iterator::operator+','__gnu_cxx::__normal_iterator::operator-','__gnu_cxx::__normal_iterator::operator+=','__gnu_cxx::__normal_iterator::operator-=')
def m_niadd(I,f,this,args,st,n):
    st,p=I.rd(st,this); st,k=arg(I,f,args,0,st)
    if not isinstance(k,Aff): return top(st,'ni+')
    op=f['sq'].split('operator')[-1]
    st,r=padd(I,st,p,k if op[0]=='+' else -k)
    if op.endswith('='): return [(I.wr(st,this,r),this)]
    return [(st,r)]
@model('__gnu_cxx::__normal_iterator::operator++','__gnu_cxx::__normal_iterator::operator--')
def m_niinc(I,f,this,args,st,n):
    st,p=I.rd(st,this)
    st,r=padd(I,st,p,ONE if f['sq'].endswith('++') else -ONE)
    return [(I.wr(st,this,r),p if args else this)]
@model('__gnu_cxx::__normal_iterator::operator*','__gnu_cxx::__normal_iterator::operator->','__gnu_cxx::__normal_iterator::base')
def m_nideref(I,f,this,args,st,n):
    st,p=I.rd(st,this)
    if f['sq'].endswith('base'): return [(st,this)]
    return [(st,p)]
@model('__gnu_cxx::operator-')
def m_nisub(I,f,this,args,st,n):
    st,a=I.rd(st,args[0]); st,b=I.rd(st,args[1])
    return pdiff(I,st,a,b)
def pdiff(I,st,a,b):
    if a==b: return [(st,ZERO)]
    if isinstance(a,tuple) and isinstance(b,tuple) and a[0]=='B' and b[0]=='B':
        if a[1]!=b[1]: return [(st.event('VIOL','difference of iterators into different allocations',I.trace()),TOP('diff'))]
        z=vesz(I,st,a)
        if z is None: return [(st.event('VIOL','iterator into released storage used',I.trace()),TOP('dangling'))]
        d=(a[2]-b[2]).divexact(z)
        if d is not None: return [(st,d)]
    return top(st,'pdiff')
def cmpmodel(op):
    def m(I,f,this,args,st,n):
        a,b=(args[0],args[1]) if this is None else (this,args[0])
        st,x=I.rd(st,a) if this is not None or I.isref(f['ps'][0]['t']) else (st,a)
        st,y=I.rd(st,b) if I.isref(f['ps'][-1]['t']) else (st,b)
        return [(st,I.cmp(op,x,y,st))]
    return m
for op in('==','!=','<','>','<=','>='): M['__gnu_cxx::operator'+op]=cmpmodel(op)
# ---- vector -----------------------------------------------------------------------
def vec(I,st,this):
    st,v=I.rd(st,this)
    if isinstance(v,tuple) and v and v[0]=='V': return st,v
    if v==('D',): return st.event('VIOL','use of a destroyed container',I.trace()),None
    return st.mktop('vec'),None
def vset(v,**k):
    d=dict(buf=1,size=2,cap=3,zones=6,al=7); l=list(v)
    for a,b in k.items(): l[d[a]]=b
    return tuple(l)
def vtypes(I,cls):
    ta=I.p.recs[cls]['ta']
    return ta[0]['t']
def newvec(I,cls,al):
    t=vtypes(I,cls)
    return V(I.buf(),ZERO,ZERO,I.size(t),t,(),al)
def elem_nothrow(I,v): return False
def holder(I,ety):
    t=I.ty(ety); r=I.p.recs.get(t.get('r'))
    return r is not None and r['sq'].endswith('::value_holder')
def heldtype(I,ety): return I.p.recs[I.ty(ety)['r']]['ta'][0]['t']
@model('std::vector::vector')
def m_vctor(I,f,this,args,st,n):
    ps=f['ps']; cls=f['cls']
    def setv(st,v): return I.wr(st,this,v)
    if not ps: return [(setv(st,newvec(I,cls,Rec(None,{'id':tok('al','default')}))),None)]
    st,a=arg(I,f,args,0,st)
    isv=I.cls(ps[0]['t'])==cls and I.isref(ps[0]['t'])
    if isv:
        if not(isinstance(a,tuple) and a[0]=='V'): return top(st,'vctor')
        mv=I.ty(ps[0]['t'])['k']=='rref'
        if len(ps)==1 and mv:
            src=vset(a,buf=I.buf(),size=ZERO,cap=ZERO,zones=())
            return [(setv(I.wr(st,args[0],src),a),None)]
        out=[]
        if len(ps)==1:
            als=soccc_value(I,st,a[7])
        else:
            st2,b=I.rd(st,args[1]) if I.isref(ps[1]['t']) else (st,args[1])
            als=[(st2,b)]
        for x,al in als:
            if mv:
                for y,eq in aleq(I,x,alid(al),alid(a[7])):
                    if eq:
                        src=vset(a,buf=I.buf(),size=ZERO,cap=ZERO,zones=())
                        out.append((setv(I.wr(y,args[0],src),vset(a,al=al)),None))
                    else:
                        # element-wise move, then the source is emptied
                        for z,w in copy_all(I,y,a,al,True):
                            src=vset(a,size=ZERO,zones=())
                            out.append((setv(I.wr(z,args[0],src),w),None))
            else:
                for y,w in copy_all(I,x,a,al,False): out.append((setv(y,w),None))
        return out
    R=I.p.recs.get(I.cls(ps[0]['t']))
    if R and R['sq']=='std::initializer_list':
        st,al=I.rd(st,args[1]) if len(args)>1 else (st,Rec(None,{}))
        if isinstance(a,tuple) and a[:2]==('T','initlist'): return top(st,'initlist')
        return [(setv(st,newvec(I,cls,al)),None)]
    if R and R['sq'] in('vt::alloc',) or R and R['sq'].endswith('allocator_adaptor') or R and R['sq'].endswith('allocator'):
        return [(setv(st,newvec(I,cls,a)),None)]
    return top(st,'vctor')
def copy_all(I,st,v,al,mv):
    """a new vector with the elements of v copied (moved): [(st,V)]"""
    if I.branch1(st,('c','==0',v[2])) is not True:
        I.throw(st.event('elemcopy'),EXC_USER)
        I.throw(st,EXC_ALLOC)
    out=[]
    for x,em in I.branch(st,('c','==0',v[2])):
        ne=not em
        if ne and holder(I,v[5]):
            for y,zs in elemwise(I,x,v,al,mv):
                cap=I.fresh('cap'); y=y.assume(cap-v[2])
                out.append((y,V(I.buf(),v[2],cap,v[4],v[5],zs,al)))
        elif ne:
            cap=I.fresh('cap')
            out.append((x.assume(cap-v[2]),V(I.buf(),v[2],cap,v[4],v[5],v[6],al)))
        else: out.append((x,V(I.buf(),ZERO,ZERO,v[4],v[5],(),al)))
    return out
def elemwise(I,st,v,al,mv):
    """element values obtained by constructing holders from the elements of v"""
    pt=I.ptrto(v[5]); want='rref' if mv else 'lref'
    g=None
    for c in I.p.byname.get('boost::poly_collection::detail::allocator_adaptor::construct',()):
        if 'body' not in c or len(c['ps'])!=2: continue
        if I.p.types[c['ps'][0]['t']].get('p') is None or I.p.tstr(I.ty(c['ps'][0]['t'])['p'])!=I.p.tstr(v[5]): continue
        t1=c['ps'][1]['t']
        if I.uq(I.ty(t1)['p'] if I.isref(t1) else t1)==I.uq(v[5]) and I.ty(t1)['k']==want: g=c; break
    if g is None and mv: return elemwise(I,st,v,al,False)
    if g is None: return [(st.mktop('no construct'),v[6])]
    out=[]
    # one generic element
    st0,src=st,('slot',I.uid()); dst=('slot',I.uid())
    gv=tok('gen')
    st1=st0.set(src,gv).set(dst,UNDEF)
    st1,aa=I.mat(st1,al,None)
    ev0=st1.ev
    I.sinks.append([])
    rs=I.call(g['id'],aa,[L(dst),L(src)],st1.cp(ev=()),None)
    ex=I.sinks.pop()
    for x,e in ex: I.throw(x.rm([src,dst]).cp(ev=ev0),e)
    for x,_ in rs:
        r=x.mem.get(dst)
        ev=x.ev
        y=x.rm([src,dst])
        y=y.cp(ev=ev0+(('each',v[2],tuple(e for e in ev)),))
        if r==gv: zs=v[6]
        else: zs=((v[2],tok('junk',I.uid())),)
        out.append((y,zs))
    return out
@model('std::_Vector_base::get_allocator','std::vector::get_allocator')
def m_vgetal(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    return [(st,v[7])] if v else top(st,'getal')
@model('std::vector::size','std::vector::capacity','std::vector::empty','std::vector::max_size')
def m_vsize(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    if v is None: return top(st,'vsize')
    k=f['n']
    if k=='size': return [(st,v[2])]
    if k=='capacity': return [(st,v[3])]
    if k=='empty': return [(st,('c','==0',v[2]))]
    m=sym('maxsize%d'%v[4])
    # collections occupying more than a quarter of the address space are out of scope
    return [(st.assume(m-v[3].scale(4)-1000).assume(m-v[2].scale(4)-1000),m)]
def vptr(I,st,v,idx):
    """address of element idx: null for a vector without storage"""
    out=[]
    for x,z in I.branch(st,('c','==0',v[3])):
        if z: out.append((x,NULL))
        else: out.append((x,B(v[1],Aff.of(idx).scale(v[4]))))
    return out
@model('std::vector::data','std::vector::begin','std::vector::cbegin','std::vector::end','std::vector::cend')
def m_vdata(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    if v is None: return top(st,'vdata')
    return vptr(I,st,v,v[2] if f['n'] in('end','cend') else ZERO)
@model('std::vector::operator[]','std::vector::at','std::vector::front','std::vector::back')
def m_vidx(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    if v is None: return top(st,'vidx')
    k=f['n']
    if k=='front': i=ZERO
    elif k=='back': i=v[2]-1
    else: i=args[0]
    if not isinstance(i,Aff): return top(st,'vidx')
    if k=='at': I.throw(st.assume(i-v[2]),tok('exc','out_of_range'))
    return [(st,B(v[1],i.scale(v[4])))]
def realloc(I,st,this,v,need,cap=None):
    """reallocate to at least need: [(st,v)] (throws reported)"""
    I.throw(st,EXC_ALLOC)
    if holder(I,v[5]):
        y=st
        if I.branch1(st,('c','==0',v[2])) is not True: I.throw(st,EXC_USER)
    c=cap if cap is not None else I.fresh('cap')
    st=st.assume(c-need)
    w=vset(v,buf=I.buf(),cap=c)
    st=st.event('realloc',v[1],w[1])
    return [(I.wr(st,this,w),w)]
@model('std::vector::reserve')
def m_vreserve(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    if v is None: return top(st,'reserve')
    k=args[0]
    if not isinstance(k,Aff): return top(st,'reserve')
    out=[]
    for x,r in I.branch(st,I.cmp('>',k,v[3],st)):
        if r: out+=[(y,None) for y,_ in realloc(I,x,this,v,k,k)]   # libstdc++: exactly what was asked for
        else: out.append((x,None))
    return out
@model('std::vector::shrink_to_fit')
def m_vshrink(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    if v is None: return top(st,'shrink')
    out=[]; st=st.event('shr',v[1])
    for x,eq in I.branch(st,('c','==0',v[3]-v[2])):
        if eq: out.append((x,None)); continue
        out.append((x,None))   # non-binding (and exceptions are absorbed)
        for y,z in I.branch(x,('c','==0',v[2])):
            if z: out.append((I.wr(y.event('realloc',v[1],None),this,vset(v,buf=I.buf(),cap=ZERO)),None))
            else:
                w=vset(v,buf=I.buf(),cap=v[2])
                out.append((I.wr(y.event('realloc',v[1],w[1]),this,w),None))
    return out
def kill(I,st,v):
    """elements of v are destroyed: what the allocator's destroy does for one of them"""
    al=v[7]
    R=I.p.recs.get(al[1]) if isinstance(al,tuple) and al[:1]==('R',) else None
    if R is None or not R['in'] or not R['sq'].endswith('allocator_adaptor') or not holder(I,v[5]): return st
    memo=I.__dict__.setdefault('killmemo',{}); key=(al[1],v[5])
    if key not in memo:
        memo[key]=None
        et=I.p.tstr(v[5]); bad=None; g=None
        for h in I.p.byname.get('boost::poly_collection::detail::allocator_adaptor::destroy',()):
            if 'body' in h and I.p.tstr(I.ty(h['ps'][0]['t'])['p'])==et and (g is None or h['cls']==al[1]): g=h
        if g is None: bad='no destroy for %s in the allocator'%et[-40:]
        else:
            o=('u','kill'); b=V('bkill',1,1,v[4],v[5],((ONE,tok('val','kill')),),None)
            x,aa=I.mat(st.set(o,b),al,None); n0=len(x.ev)
            I.sinks.append([])
            try:
                for y,_ in I.call(g['id'],aa,[B('bkill',0)],x,None):
                    d=[e for e in y.ev[n0:] if e[0]=='destr']
                    if y.top: continue
                    if len(d)!=1: bad='an erased element is destroyed %d times'%len(d)
                    elif d[0][1] is None: bad='elements are destroyed without the allocator'
                    elif d[0][1]!=alid(al): bad='elements are destroyed through another allocator'
            finally: I.sinks.pop()
        memo[key]=bad
    return st if memo[key] is None else st.event('baddestr',memo[key])
@model('std::vector::clear')
def m_vclear(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    if v is None: return top(st,'clear')
    return [(I.wr(kill(I,st,v),this,vset(v,size=ZERO,zones=())),None)]
@model('std::vector::swap')
def m_vswap(I,f,this,args,st,n):
    st,a=vec(I,st,this); st,b=vec(I,st,args[0])
    if a is None or b is None: return top(st,'vswap')
    return [(I.wr(I.wr(st,this,vset(b,al=a[7])),args[0],vset(a,al=b[7])),None)]
@model('std::vector::pop_back')
def m_vpop(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    if v is None: return top(st,'pop')
    if not st.cons.entails(v[2]-1):
        if not st.cons.possible(v[2]-1): return [(st.event('VIOL','pop_back on an empty vector',I.trace()),None)]
        st=st.assume(v[2]-1)   # precondition
    try: z=ztake(v[6],v[2]-1,st.cons)
    except Undecided: return top(st,'popz')
    return [(I.wr(st,this,vset(v,size=v[2]-1,zones=znorm(z,st.cons))),None)]
def make_elem(I,st,v,args,ats):
    """value of a new element constructed from args: [(st,value)]"""
    if not holder(I,v[5]):
        if len(args)==1:
            st,x=I.rd(st,args[0]) if I.isref(ats[0]) else (st,args[0])
            return [(st,x)]
        return [(st.mktop('mkelem'),TOP('mkelem'))]
    g=find_construct(I,v[7][1],I.ptrto(v[5]),ats)
    slot=('slot',I.uid())
    st,aa=I.mat(st.set(slot,UNDEF),v[7],None)
    if g is None:
        return [(st.mktop('no construct for element'),TOP('construct'))]
    I.sinks.append([])
    rs=I.call(g['id'],aa,[L(slot)]+list(args),st,None)
    ex=I.sinks.pop()
    for x,e in ex: I.throw(x.rm([slot,aa[1]]),e)
    out=[]
    for x,_ in rs:
        r=x.mem.get(slot,UNDEF)
        if isinstance(r,tuple) and r[0]=='R': r=tok('empty holder')
        out.append((x.rm([slot,aa[1]]),r))
    return out
@model('std::vector::emplace_back','std::vector::push_back')
def m_vpush(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    if v is None: return top(st,'push')
    ats=[p['t'] for p in f['ps']]
    out=[]
    for x,full in I.branch(st,('c','==0',v[3]-v[2])):
        for y,val in make_elem(I,x,v,args,ats):
            # (re-read: the construction may have changed the sources)
            y,v2=vec(I,y,this)
            if full:
                for z,w in realloc(I,y,this,v2,v2[2]+1):
                    out.append((I.wr(z,this,vset(w,size=w[2]+1,zones=znorm(list(w[6])+[(ONE,val)],z.cons))),None))
            else:
                out.append((I.wr(y,this,vset(v2,size=v2[2]+1,zones=znorm(list(v2[6])+[(ONE,val)],y.cons))),None))
    res=[]
    for x,_ in out:
        _,w=vec(I,x,this)
        res.append((x,B(w[1],(w[2]-1).scale(w[4]))))
    return res
def posidx(I,st,v,p):
    """index designated by iterator p in v: (st,index|None)"""
    if p==NULL and st.cons.entails_eq(v[3]): return st,ZERO
    if isinstance(p,tuple) and p[0]=='B':
        if p[1]!=v[1]: return st.event('VIOL','iterator passed to a vector operation does not point into that vector',I.trace()),None
        d=p[2].divexact(v[4])
        if d is not None: return st,d
    return st.mktop('pos'),None
def range_check(I,st,v,i,hi,what):
    """0<=i<=hi must hold; definite violation only"""
    if not st.cons.possible(i) or not st.cons.possible(hi-i):
        return st.event('VIOL',what,I.trace()),False
    return st.assume(i).assume(hi-i),True
@model('std::vector::emplace')
def m_vemplace(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    if v is None: return top(st,'emplace')
    ats=[p['t'] for p in f['ps'][1:]]
    return vins1(I,st,this,v,args[0],args[1:],ats)
def vins1(I,st,this,v,pos,args,ats):
    st,i=posidx(I,st,v,pos)
    if i is None: return top(st,'emplace')
    st,ok=range_check(I,st,v,i,v[2],'insertion position outside the vector')
    if not ok: return [(st,TOP('pos'))]
    out=[]
    for x,full in I.branch(st,('c','==0',v[3]-v[2])):
        for y,val in make_elem(I,x,v,args,ats):
            y,v2=vec(I,y,this)
            try: zs=ztake(v2[6],i,y.cons)+[(ONE,val)]+zdrop(v2[6],i,y.cons)
            except Undecided: out+=top(y,'insz'); continue
            if full:
                for z,w in realloc(I,y,this,v2,v2[2]+1):
                    out.append((I.wr(z,this,vset(w,size=w[2]+1,zones=znorm(zs,z.cons))),B(w[1],i.scale(w[4]))))
            else:
                # shifting assigns elements, which may throw half-way
                for z,atend in I.branch(y,('c','==0',v2[2]-i)):
                    if not atend and holder(I,v2[5]):
                        junk=ztake(v2[6],i,z.cons)+[(v2[2]-i+1,tok('junk',I.uid()))]
                        I.throw(I.wr(z.event('shift'),this,vset(v2,size=v2[2]+1,zones=znorm(junk,z.cons))),EXC_USER)
                    out.append((I.wr(z,this,vset(v2,size=v2[2]+1,zones=znorm(zs,z.cons))),B(v2[1],i.scale(v2[4]))))
    return out
def src_range(I,st,a,b):
    """pointers delimiting [a,b) in some buffer: (st,vec,first index,count)"""
    a=rget(a,'p') if isinstance(a,tuple) and a[0]=='R' else a
    b=rget(b,'p') if isinstance(b,tuple) and b[0]=='R' else b
    if isinstance(a,tuple) and a[0]=='R' or not(isinstance(a,tuple) and a[0]=='B' and isinstance(b,tuple) and b[0]=='B' and a[1]==b[1]): return None
    o=I.vecs(st).get(a[1])
    if o is None: return None
    z=o[1][4]
    i=a[2].divexact(z); m=(b[2]-a[2]).divexact(z)
    if i is None or m is None: return None
    return o[1],i,m
@model('std::vector::insert')
def m_vinsert(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    if v is None: return top(st,'insert')
    if len(args)==2:
        return vins1(I,st,this,v,args[0],args[1:],[f['ps'][1]['t']])
    if len(args)!=3: return top(st,'insert')
    st,i=posidx(I,st,v,args[0])
    if i is None: return top(st,'insertpos')
    r=src_range(I,st,args[1],args[2])
    if r is None: return top(st,'insert range')
    sv,si,m=r
    # the element type the container constructs from: reference of the iterator
    out=[]
    for x0,pos in I.branch(st,I.cmp('>',m,ZERO,st)):
        if not pos: out.append((x0,args[0])); continue
        rt=I.iter_ref(f['ps'][1]['t'])
        g=find_construct(I,v[7][1],I.ptrto(v[5]),[rt]) if rt is not None else None
        if g is None: out+=top(x0,'insert construct'); continue
        # interpret the construction of a generic element j of the range
        j=I.fresh('j'); jn=j.t[0][0]
        x=x0.assume(j).assume(m-1-j)
        slot=('slot',I.uid()); x,aa=I.mat(x.set(slot,UNDEF),v[7],None)
        ev0=x.ev
        I.sinks.append([])
        rs=I.call(g['id'],aa,[L(slot),B(sv[1],(si+j).scale(sv[4]))],x.cp(ev=()),None)
        ex=I.sinks.pop()
        if ex: I.throw_insert=True
        good=[(y,y.mem.get(slot)) for y,_ in rs]
        if not good: continue
        for y,val in good:
            tmpl=vsub(val,{jn:sym(J)})
            x1=x0.cp(ev=ev0+(('each',m,vsub(y.ev,{jn:sym(J)})),),top=y.top)
            # did the construction change its source (a move)?
            y2,srcv=I.rd(y,B(sv[1],(si+j).scale(sv[4])))
            if isinstance(srcv,tuple) and srcv[:2]==('T','moved'):
                try:
                    va,cur=I.vecs(x1)[sv[1]]
                    zs=ztake(cur[6],si,x1.cons)+[(m,vsub(srcv,{jn:sym(J)}))]+zdrop(cur[6],si+m,x1.cons)
                    x1=I.wr(x1,va,vset(cur,zones=znorm(zs,x1.cons)))
                except Undecided: x1=x1.mktop('srcmv')
            for y,fits in I.branch(x1,('c','>=0',v[3]-v[2]-m)):
                y,v2=vec(I,y,this)
                try: zs=ztake(v2[6],i,y.cons)+[(m,tmpl)]+zdrop(v2[6],i,y.cons)
                except Undecided: out+=top(y,'insz'); continue
                if not fits:
                    I.throw(y,EXC_USER)
                    for z,w in realloc(I,y,this,v2,v2[2]+m):
                        out.append((I.wr(z,this,vset(w,size=w[2]+m,zones=znorm(zs,z.cons))),B(w[1],i.scale(w[4]))))
                else:
                    # in place: may fail with any number of elements present
                    k=I.fresh('k')
                    z=y.assume(k).assume(m-k)
                    for z,fail in I.branch(z,('c','==0',k)):
                        if fail: I.throw(y,EXC_USER)
                        else:
                            junk=ztake(v2[6],i,z.cons)+[(v2[2]-i+k,tok('junk',I.uid()))]
                            I.throw(I.wr(z,this,vset(v2,size=v2[2]+k,zones=znorm(junk,z.cons))),EXC_USER)
                    out.append((I.wr(y,this,vset(v2,size=v2[2]+m,zones=znorm(zs,y.cons))),B(v2[1],i.scale(v2[4]))))
    return out
@model('std::vector::erase')
def m_verase(I,f,this,args,st,n):
    st,v=vec(I,st,this)
    if v is None: return top(st,'erase')
    st,i=posidx(I,st,v,args[0])
    if i is None: return top(st,'erase')
    if len(args)>1:
        st,k=posidx(I,st,v,args[1])
        if k is None: return top(st,'erase')
    else: k=i+1
    st,ok=range_check(I,st,v,i,v[2],'erase position outside the vector')
    if not ok: return [(st,TOP('pos'))]
    st,ok=range_check(I,st,v,k-i,v[2]-i,'erased range outside the vector or reversed')
    if not ok: return [(st,TOP('pos'))]
    try: zs=ztake(v[6],i,st.cons)+zdrop(v[6],k,st.cons)
    except Undecided: return top(st,'erasez')
    st=kill(I,st.event('erase',v[1],i,k),v)
    out=[]
    # elements after the range are move-assigned, which may throw
    for x,nothing in I.branch(st,('c','==0',k-i)):
        if nothing: out.append((x,args[0])); continue
        for y,tail in I.branch(x,('c','>=0',v[2]-k-1)):
            if tail and holder(I,v[5]):
                junk=ztake(v[6],i,y.cons)+[(v[2]-i,tok('junk',I.uid()))]
                I.throw(I.wr(y,this,vset(v,zones=znorm(junk,y.cons))),EXC_USER)
            out.append((I.wr(y,this,vset(v,size=v[2]-(k-i),zones=znorm(zs,y.cons))),args[0]))
    return out
@model('std::vector::resize','std::vector::assign','std::vector::operator=')
def m_vother(I,f,this,args,st,n):
    if f['n']=='operator=':
        st,a=vec(I,st,this); st,b=vec(I,st,args[0])
        if a is None or b is None or f.get('sk')!='ma': return top(st,'v=')
        if this==args[0]: return [(st,this)]
        tr=I.altrait(a[7][1],'propagate_on_container_move_assignment')
        out=[]
        for x,eq in aleq(I,st,alid(a[7]),alid(b[7])):
            if tr or eq:
                src=vset(b,buf=I.buf(),size=ZERO,cap=ZERO,zones=())
                out.append((I.wr(I.wr(x,args[0],src),this,vset(b,al=b[7] if tr else a[7])),this))
            else:
                for y,w in copy_all(I,x,b,a[7],True): out.append((I.wr(y,this,w),this))
        return out
    return top(st,'vector::'+f['n'])
def d_vector(I,R,addr,st):
    st,v=I.rd(st,addr)
    if isinstance(v,tuple) and v[0]=='V': return [I.wr(kill(I,st.event('vecdtor',v[1]),v),addr,('D',))]
    if v==('D',): return [st.event('VIOL','container destroyed twice',I.trace())]
    return [I.wr(st,addr,('D',))]
M['~std::vector']=d_vector
def eq_elems(I,f,st,a,b):
    """element by element comparison of two vectors of equal, positive size: the
    comparison the elements provide is interpreted on one arbitrary position"""
    R=I.p.recs[I.cls(f['ps'][0]['t'])]
    E=I.cls(R['ta'][0]['t']) if R.get('ta') and isinstance(R['ta'][0],dict) and 't' in R['ta'][0] else None
    k=I.fresh('k'); y=st.assume(k).assume(a[2]-k-1)
    pa,pb=B(a[1],k.scale(a[4])),B(b[1],k.scale(b[4]))
    y,va=I.rd(y,pa); y,vb=I.rd(y,pb)
    g=None
    for h in I.p.fns.values():
        if h.get('n')=='operator==' and h.get('body') is not None and len(h['ps'])==2 and E is not None and all(I.cls(q['t'])==E for q in h['ps']): g=h
    if g is None:
        I.throw(y,EXC_USER)
        return [(y.event('veq',a[1],b[1]),('c','op',tok('veq',a[1],b[1])))]
    out=[]
    for z,v in I.call(g['id'],None,[pa,pb],y):
        ok=v in(('c','op',tok('eq',va,vb)),('c','op',tok('eq',vb,va)))
        if isinstance(v,tuple) and v and v[0]=='c' or isinstance(v,bool):
            out.append((z.event('veq',a[1],b[1]),('c','op',tok('veq' if ok else 'badeq',a[1],b[1])) if not isinstance(v,bool) else v))
        else: out.append((z.mktop('element comparison'),TOP('veq')))
    return out
def m_eqdisp(I,f,this,args,st,n):
    """std::operator== for vectors, pairs of iterators..."""
    R=I.p.recs.get(I.cls(f['ps'][0]['t']))
    if R and R['sq']=='std::vector':
        st,a=vec(I,st,args[0]); st,b=vec(I,st,args[1])
        if a is None or b is None: return top(st,'veq')
        out=[]
        for x,same in I.branch(st,('c','==0',a[2]-b[2])):
            if not same: out.append((x,False)); continue
            for y,e in I.branch(x,('c','==0',a[2])):
                if e: out.append((y,True)); continue
                out+=eq_elems(I,f,y,a,b)
        return out
    if R and R['sq'].startswith('std::__detail'): return m_nodeeq(I,f,this,args,st,n)
    if R and R['sq']=='std::unique_ptr' or R is None:
        return top(st,'std==')
    return top(st,'std==')
# ---- unique_ptr -----------------------------------------------------------------
def up(I,st,a):
    st,v=I.rd(st,a)
    if isinstance(v,tuple) and v and v[0]=='U': return st,v
    if v==('D',): return st.event('VIOL','use of a destroyed owner',I.trace()),None
    return st.mktop('uptr'),None
@model('std::unique_ptr::unique_ptr')
def m_uctor(I,f,this,args,st,n):
    if f.get('sk')=='mc':
        st,v=up(I,st,args[0])
        if v is None: return top(st,'uctor')
        return [(I.wr(I.wr(st,args[0],('U',NULL,v[2])),this,v),None)]
    if len(args)==2:
        st,p=arg(I,f,args,0,st); st,d=arg(I,f,args,1,st)
        return [(I.wr(st,this,('U',p,d)),None)]
    if len(args)==0: return [(I.wr(st,this,('U',NULL,UNDEF)),None)]
    return top(st,'uctor')
@model('std::unique_ptr::operator*','std::unique_ptr::operator->','std::unique_ptr::get')
def m_uderef(I,f,this,args,st,n):
    st,v=up(I,st,this)
    if v is None: return top(st,'uptr')
    if v[1]==NULL and f['n']!='get': return [(st.event('VIOL','use of a segment whose implementation has been moved away',I.trace()),TOP('null'))]
    return [(st,v[1])]
@model('std::unique_ptr::operator bool')
def m_ubool(I,f,this,args,st,n):
    st,v=up(I,st,this)
    return [(st,v[1]!=NULL)] if v else top(st,'uptr')
@model('std::unique_ptr::get_deleter')
def m_udel(I,f,this,args,st,n):
    return [(st,TOP('deleter'))]
@model('std::unique_ptr::release')
def m_urel(I,f,this,args,st,n):
    st,v=up(I,st,this)
    if v is None: return top(st,'uptr')
    return [(I.wr(st,this,('U',NULL,v[2])),v[1])]
def udelete(I,st,v):
    if v[1]==NULL: return [st]
    d=v[2]
    if isinstance(d,tuple) and d[0]=='F':
        return [x for x,_ in I.call(d[1],None,[v[1]],st,None)]
    return [st.mktop('deleter')]
@model('std::unique_ptr::operator=')
def m_uassign(I,f,this,args,st,n):
    st,a=up(I,st,this); st,b=up(I,st,args[0])
    if a is None or b is None: return top(st,'u=')
    if this==args[0]: return [(st,this)]
    st=I.wr(I.wr(st,args[0],('U',NULL,b[2])),this,('U',b[1],b[2]))
    # reset() runs the old deleter before the new one is assigned
    return [(x,this) for x in udelete(I,st,a)]
@model('std::unique_ptr::reset')
def m_ureset(I,f,this,args,st,n):
    st,a=up(I,st,this)
    if a is None: return top(st,'ureset')
    p=args[0] if args else NULL
    return [(x,None) for x in udelete(I,I.wr(st,this,('U',p,a[2])),a)]
@model('std::unique_ptr::swap')
def m_uswap(I,f,this,args,st,n):
    st,a=up(I,st,this); st,b=up(I,st,args[0])
    return [(I.wr(I.wr(st,this,b),args[0],a),None)]
def d_uptr(I,R,addr,st):
    st,v=I.rd(st,addr)
    if isinstance(v,tuple) and v[0]=='U': return udelete(I,I.wr(st,addr,('D',)),v)
    if v==('D',): return [st.event('VIOL','owner destroyed twice',I.trace())]
    if v==UNDEF: return [st]
    return [st.mktop('~uptr')]
M['~std::unique_ptr']=d_uptr
# ---- unordered_map ----------------------------------------------------------------
# value ('M',nodes,al)
def mp(I,st,a):
    st,v=I.rd(st,a)
    if isinstance(v,tuple) and v and v[0]=='M': return st,v
    if v==('D',): return st.event('VIOL','use of a destroyed container',I.trace()),None
    return st.mktop('map'),None
def maps(st):
    out=[]
    def go(v,oid,path):
        if not isinstance(v,tuple) or not v: return
        if v[0]=='M': out.append((L(oid,path),v))
        elif v[0]=='R':
            for k,x in v[2]: go(x,oid,path+(k,))
    for o,v in st.mem.items(): go(v,o,())
    return out
def node_owner(st,node):
    for a,v in maps(st):
        if node in v[1]: return a,v
    return None
def node_class(I,cls):
    """pair<const K,V> record of an unordered_map class"""
    ta=I.p.recs[cls]['ta']
    K,T=ta[0]['t'],ta[1]['t']
    return K,T
def issegmap(I,cls):
    K,T=node_class(I,cls)
    r=I.p.recs.get(I.ty(T).get('r'))
    return r is not None and r['sq'].endswith('detail::segment')
def pairrec(I,cls):
    K,T=node_class(I,cls)
    for r in I.p.recs.values():
        if r['sq']=='std::pair' and len(r.get('ta',()))==2 and I.uq(r['ta'][0]['t'])==I.uq(K) and I.p.tstr(r['ta'][1]['t'])==I.p.tstr(T): return r['id']
    return None
def pair_construct(I,st,cls,mal,srcs,ats):
    """run allocator construct for a node's pair: [(st,node oid)]"""
    node=('node',I.uid())
    I.throw(st,EXC_ALLOC)
    st1,aa=I.mat(st.set(node,UNDEF),mal,None)
    T=I.p.tstr(node_class(I,cls)[1])
    # candidates: construct(pair*,ats...)
    want=[I.p.tstr(t) for t in ats]
    g=None
    for c in I.p.byname.get('boost::poly_collection::detail::allocator_adaptor::construct',()):
        if 'body' not in c: continue
        if [I.p.tstr(p['t']) for p in c['ps'][1:]]==want:
            r=I.p.recs.get(I.ty(I.ty(c['ps'][0]['t'])['p']).get('r'))
            if r and r['sq']=='std::pair' and len(r['ta'])==2 and I.p.tstr(r['ta'][1]['t'])==T: g=c; break
    if g is None: return [(st1.mktop('pair construct'),node)]
    I.sinks.append([])
    rs=I.call(g['id'],aa,[L(node)]+list(srcs),st1,None)
    ex=I.sinks.pop()
    for x,e in ex: I.throw(x.rm([node,aa[1]]),e)
    return [(x.rm([aa[1]]),node) for x,_ in rs]
def pair_args(I,cls,mv):
    """type of value_type const&/&& for construct"""
    T=I.p.tstr(node_class(I,cls)[1])
    for c in I.p.byname.get('boost::poly_collection::detail::allocator_adaptor::construct',()):
        if 'body' not in c or len(c['ps'])!=2: continue
        t=c['ps'][1]['t']
        if not I.isref(t) or (I.ty(t)['k']=='rref')!=mv: continue
        r=I.p.recs.get(I.ty(I.ty(t)['p']).get('r'))
        if r and r['sq']=='std::pair' and len(r['ta'])==2 and I.p.tstr(r['ta'][1]['t'])==T: return t
    return None
def copy_nodes(I,st,cls,nodes,al,mv):
    """[(st,new nodes)]; on failure the nodes made so far are destroyed"""
    if not issegmap(I,cls):
        out=[]; new=[]
        if nodes: I.throw(st,EXC_ALLOC)
        for nd in nodes:
            k=('node',I.uid()); st=st.set(k,st.mem[nd]); new.append(k)
        return [(st,tuple(new))]
    t=pair_args(I,cls,mv)
    if t is None and mv: t=pair_args(I,cls,False)
    if t is None and nodes: return [(st.mktop('copy nodes'),())]
    states=[(st,())]
    for nd in nodes:
        nxt=[]
        for x,done in states:
            I.sinks.append([])
            rs=pair_construct(I,x,cls,al,[L(nd)],[t])
            ex=I.sinks.pop()
            for y,e in ex:
                for z in destroy_nodes(I,y,cls,done): I.throw(z,e)
            nxt+=[(y,done+(k,)) for y,k in rs]
        states=nxt
    return states
def destroy_nodes(I,st,cls,nodes):
    states=[st]
    seg=issegmap(I,cls)
    T=node_class(I,cls)[1]
    for nd in nodes:
        nxt=[]
        for x in states:
            if seg:
                for y in I.destroy(x,L(nd,('second',)),I.ty(T)['r']): nxt.append(y.rm([nd]))
            else: nxt.append(x.rm([nd]))
        states=nxt
    return states
@model('std::unordered_map::unordered_map')
def m_mctor(I,f,this,args,st,n):
    ps=f['ps']; cls=f['cls']
    if not ps: return [(I.wr(st,this,('M',(),Rec(None,{'id':tok('al','default')}))),None)]
    ism=I.isref(ps[0]['t']) and I.cls(ps[0]['t'])==cls
    if not ism:
        if len(ps)==1 and I.cls(ps[0]['t']) is not None:
            st,a=arg(I,f,args,0,st)
            return [(I.wr(st,this,('M',(),a)),None)]
        return top(st,'mctor')
    st,m=mp(I,st,args[0])
    if m is None: return top(st,'mctor')
    mv=I.ty(ps[0]['t'])['k']=='rref'
    if len(ps)==1 and mv:
        return [(I.wr(I.wr(st,args[0],('M',(),m[2])),this,m),None)]
    if len(ps)==1: als=soccc_value(I,st,m[2])
    else:
        st,al=arg(I,f,args,1,st); als=[(st,al)]
    out=[]
    for x,al in als:
        if mv:
            for y,eq in aleq(I,x,alid(al),alid(m[2])):
                if eq: out.append((I.wr(I.wr(y,args[0],('M',(),m[2])),this,('M',m[1],al)),None))
                else:
                    for z,new in copy_nodes(I,y,cls,m[1],al,True):
                        z=I.wr(z,this,('M',new,al))
                        for w in destroy_nodes(I,z,cls,m[1]): out.append((I.wr(w,args[0],('M',(),m[2])),None))
        else:
            for y,new in copy_nodes(I,x,cls,m[1],al,False): out.append((I.wr(y,this,('M',new,al)),None))
    return out
def clear_map(I,st,cls,this):
    st,m=mp(I,st,this)
    if m is None: return [st.mktop('mclear')]
    return [I.wr(x,this,('M',(),m[2])) for x in destroy_nodes(I,st,cls,m[1])]
@model('std::unordered_map::operator=')
def m_massign(I,f,this,args,st,n):
    cls=f['cls']
    st,a=mp(I,st,this); st,b=mp(I,st,args[0])
    if a is None or b is None: return top(st,'m=')
    if this==args[0]: return [(st,this)]
    out=[]
    if f.get('sk')=='ma':
        tr=I.altrait(b[2][1],'propagate_on_container_move_assignment')
        for x,eq in ([(st,True)] if tr else aleq(I,st,alid(a[2]),alid(b[2]))):
            if tr or eq:
                for y in destroy_nodes(I,x,cls,a[1]):
                    y=I.wr(y,this,('M',b[1],b[2] if tr else a[2]))
                    out.append((I.wr(y,args[0],('M',(),b[2])),this))
            else:
                for x1 in destroy_nodes(I,x,cls,a[1]):
                    x1=I.wr(x1,this,('M',(),a[2]))
                    for y,new in copy_nodes(I,x1,cls,b[1],a[2],True):
                        y=I.wr(y,this,('M',new,a[2]))
                        for z in destroy_nodes(I,y,cls,b[1]): out.append((I.wr(z,args[0],('M',(),b[2])),this))
    else:
        tr=I.altrait(a[2][1],'propagate_on_container_copy_assignment')
        al=b[2] if tr else a[2]
        for x1 in destroy_nodes(I,st,cls,a[1]):
            x1=I.wr(x1,this,('M',(),al))
            for y,new in copy_nodes(I,x1,cls,b[1],al,False): out.append((I.wr(y,this,('M',new,al)),this))
    return out
@model('std::unordered_map::swap')
def m_mswap(I,f,this,args,st,n):
    st,a=mp(I,st,this); st,b=mp(I,st,args[0])
    if a is None or b is None: return top(st,'mswap')
    tr=I.altrait(a[2][1],'propagate_on_container_swap')
    x,y=(('M',b[1],b[2]),('M',a[1],a[2])) if tr else (('M',b[1],a[2]),('M',a[1],b[2]))
    return [(I.wr(I.wr(st,this,x),args[0],y),None)]
@model('std::unordered_map::clear')
def m_mclear(I,f,this,args,st,n): return [(x,None) for x in clear_map(I,st,f['cls'],this)]
@model('std::unordered_map::get_allocator')
def m_mgetal(I,f,this,args,st,n):
    st,m=mp(I,st,this)
    return [(st,m[2])] if m else top(st,'mgetal')
@model('std::unordered_map::begin','std::unordered_map::cbegin','std::unordered_map::end','std::unordered_map::cend')
def m_mbegin(I,f,this,args,st,n):
    st,m=mp(I,st,this)
    if m is None: return top(st,'mbegin')
    return [(st,('I',m[1][0] if m[1] and 'begin' in f['n'] else None))]
@model('std::unordered_map::size','std::unordered_map::empty','std::unordered_map::bucket_count')
def m_msize(I,f,this,args,st,n):
    st,m=mp(I,st,this)
    if m is None: return top(st,'msize')
    if f['n']=='size': return [(st,Aff(len(m[1])))]
    if f['n']=='empty': return [(st,not m[1])]
    return [(st,tok('bc',I.uid()))]
def functor(I,t):
    r=I.p.recs.get(I.ty(t).get('r'))
    if r is None or not r['in']: return None
    for f in I.p.fns.values():
        if f.get('cls')==r['id'] and f['n']=='operator()' and 'body' in f: return f
    return None
def key_eq(I,st,cls,a,b):
    """[(st,bool)]: do keys a and b (pointer values) match in this map?"""
    ta=I.p.recs[cls]['ta']
    h=functor(I,ta[2]['t']); e=functor(I,ta[3]['t'])
    def run(g,vals,st):
        o=('t','m',I.uid()); st=st.set(o,Rec(g['cls'],{}))
        args=[]
        for p,v in zip(g['ps'],vals):
            if I.isref(p['t']):
                st,ad=I.mat(st,v,None); args.append(ad)
            else: args.append(v)
        return I.call(g['id'],L(o),args,st,None)
    res=[]
    if h is not None:
        for x,ha in run(h,[a],st):
            for y,hb in run(h,[b],x):
                res.append((y,ha,hb))
    else: res=[(st,tok('hptr',a),tok('hptr',b))]
    out=[]
    for x,ha,hb in res:
        if istop(ha) or istop(hb): out.append((x.mktop('hash'),False)); continue
        if e is not None:
            for y,r in run(e,[a,b],x):
                for z,bb in I.branch(y,r): out.append((z,bb and ha==hb))
        else: out.append((x,a==b and ha==hb))
    return out
def mfind(I,st,cls,m,key):
    """[(st,node|None)]"""
    out=[]
    def go(st,i):
        if i==len(m[1]): out.append((st,None)); return
        nd=m[1][i]
        if nd not in st.mem: out.append((st.mktop('node'),None)); return
        k=rget(st.mem[nd],'first')
        for x,eq in key_eq(I,st,cls,key,k):
            if eq: out.append((x,nd))
            else: go(x,i+1)
    go(st,0)
    return out
@model('std::unordered_map::find','std::unordered_map::count','std::unordered_map::at','std::unordered_map::contains')
def m_mfind(I,f,this,args,st,n):
    st,m=mp(I,st,this); st,k=arg(I,f,args,0,st)
    if m is None or istop(k): return top(st,'mfind')
    r=mfind(I,st,f['cls'],m,k)
    if f['n']=='count': return [(x,Aff(0 if nd is None else 1)) for x,nd in r]
    if f['n']=='contains': return [(x,nd is not None) for x,nd in r]
    if f['n']=='at':
        out=[]
        for x,nd in r:
            if nd is None: I.throw(x,tok('exc','out_of_range'))
            else: out.append((x,L(nd,('second',))))
        return out
    return [(x,('I',nd)) for x,nd in r]
def mpair(I,f,st,nd,b):
    rc=I.cls(f['ret']) if 'ret' in f else None
    return Rec(rc,{'first':('I',nd),'second':b})
@model('std::unordered_map::emplace','std::unordered_map::insert','std::unordered_map::try_emplace')
def m_memplace(I,f,this,args,st,n):
    cls=f['cls']
    st,m=mp(I,st,this)
    if m is None: return top(st,'memplace')
    ps=f['ps']
    seg=issegmap(I,cls)
    out=[]
    if f['n']=='insert' and len(ps)==1:
        st,p=I.rd(st,args[0])
        if not(isinstance(p,tuple) and p[0]=='R'): return top(st,'minsert')
        key=rget(p,'first')
        if seg:
            pt=pair_args(I,cls,I.ty(ps[0]['t'])['k']=='rref')
            if pt is None: return top(st,'minsert seg')
            for x,nd in mfind(I,st,cls,m,key):
                if nd is not None: out.append((x,mpair(I,f,x,nd,False))); continue
                for y,node in pair_construct(I,x,cls,m[2],[args[0]],[pt]): out+=placed(I,f,this,cls,m,y,node)
            return out
        for x,nd in mfind(I,st,cls,m,key):
            if nd is not None: out.append((x,mpair(I,f,x,nd,False))); continue
            I.throw(x,EXC_ALLOC)
            k=('node',I.uid())
            x=x.set(k,p)
            out.append((I.wr(x,this,('M',(k,)+m[1],m[2])),mpair(I,f,x,k,True)))
        return out
    if len(ps)!=2: return top(st,'memplace')
    st,key=I.rd(st,args[0])
    if not seg:
        st,val=I.rd(st,args[1])
        for x,nd in mfind(I,st,cls,m,key):
            if nd is not None: out.append((x,mpair(I,f,x,nd,False))); continue
            I.throw(x,EXC_ALLOC)
            k=('node',I.uid())
            x=x.set(k,Rec(pairrec(I,cls),{'first':key,'second':val}))
            out.append((I.wr(x,this,('M',(k,)+m[1],m[2])),mpair(I,f,x,k,True)))
        return out
    if f['n']=='try_emplace': return top(st,'try_emplace')
    for x,node in pair_construct(I,st,cls,m[2],args,[p['t'] for p in ps]):
        for y,nd in mfind(I,x,cls,m,key):
            if nd is not None:
                for z in destroy_nodes(I,y,cls,(node,)): out.append((z,mpair(I,f,z,nd,False)))
            else: out+=placed(I,f,this,cls,m,y,node)
    return out
def placed(I,f,this,cls,m,y,node):
    # the node may be placed anywhere in iteration order
    out=[(I.wr(y,this,('M',(node,)+m[1],m[2])),mpair(I,f,y,node,True))]
    if I.neworder and m[1]: out.append((I.wr(y,this,('M',m[1]+(node,),m[2])),mpair(I,f,y,node,True)))
    # rehashing or a failure to rehash
    for z in destroy_nodes(I,y,cls,(node,)): I.throw(z,EXC_ALLOC)
    return out
@model('std::unordered_map::erase')
def m_merase(I,f,this,args,st,n):
    st,m=mp(I,st,this)
    if m is None: return top(st,'merase')
    st,a=arg(I,f,args,0,st)
    if isinstance(a,tuple) and a[0]=='I' and len(args)==1:
        if a[1] not in m[1]: return [(st.event('VIOL','erase with an iterator of another container',I.trace()),TOP('it'))]
        i=m[1].index(a[1]); nx=m[1][i+1] if i+1<len(m[1]) else None
        st=I.wr(st,this,('M',m[1][:i]+m[1][i+1:],m[2]))
        return [(x,('I',nx)) for x in destroy_nodes(I,st,f['cls'],(a[1],))]
    if len(args)==1:
        out=[]
        for x,nd in mfind(I,st,f['cls'],m,a):
            if nd is None: out.append((x,ZERO)); continue
            x=I.wr(x,this,('M',tuple(k for k in m[1] if k!=nd),m[2]))
            out+=[(y,ONE) for y in destroy_nodes(I,x,f['cls'],(nd,))]
        return out
    return top(st,'merase')
def d_map(I,R,addr,st):
    st,v=I.rd(st,addr)
    if v==('D',): return [st.event('VIOL','container destroyed twice',I.trace())]
    if not(isinstance(v,tuple) and v[0]=='M'): return [st]
    return [I.wr(x,addr,('D',)) for x in destroy_nodes(I,I.wr(st,addr,('M',(),v[2])),R['id'],v[1])]
M['~std::unordered_map']=d_map
ND='std::__detail::'
def itv(I,st,a):
    st,v=I.rd(st,a)
    return st,v
for nm in('_Node_iterator','_Node_const_iterator'):
    @model(ND+nm+'::'+nm)
    def m_nctor(I,f,this,args,st,n):
        if not args: return [(I.wr(st,this,('I','null')),None)]
        st,v=arg(I,f,args,0,st)
        return [(I.wr(st,this,v),None)]
    @model(ND+nm+'::operator=')
    def m_nasg(I,f,this,args,st,n):
        st,v=I.rd(st,args[0])
        return [(I.wr(st,this,v),this)]
    @model(ND+nm+'::operator*',ND+nm+'::operator->')
    def m_nderef(I,f,this,args,st,n):
        st,v=I.rd(st,this)
        if not(isinstance(v,tuple) and v[0]=='I'): return top(st,'node*')
        if v[1] is None: return [(st.event('VIOL','dereference of the end of the segment map',I.trace()),TOP('end'))]
        if v[1] not in st.mem or node_owner(st,v[1]) is None:
            if v[1] in st.mem and I.constructing(st,v[1]): return [(st,L(v[1]))]
            return [(st.event('VIOL','use of an iterator to a segment that no longer exists',I.trace()),TOP('gone'))]
        return [(st,L(v[1]))]
    @model(ND+nm+'::operator++')
    def m_ninc(I,f,this,args,st,n):
        st,v=I.rd(st,this)
        if not(isinstance(v,tuple) and v[0]=='I'): return top(st,'node++')
        if v[1] is None: return [(st.event('VIOL','increment past the end of the segment map',I.trace()),TOP('end'))]
        o=node_owner(st,v[1])
        if o is None: return [(st.event('VIOL','use of an iterator to a segment that no longer exists',I.trace()),TOP('gone'))]
        ns=o[1][1]; i=ns.index(v[1])
        return [(I.wr(st,this,('I',ns[i+1] if i+1<len(ns) else None)),v if args else this)]
def nodecmp(neg):
    def m(I,f,this,args,st,n):
        a,b=(this,args[0]) if this is not None else (args[0],args[1])
        st,x=I.rd(st,a); st,y=I.rd(st,b)
        if istop(x) or istop(y) or not(x[0]=='I' and y[0]=='I'): return top(st,'node==')
        return [(st,(x[1]==y[1])!=neg)]
    return m
m_nodeeq=nodecmp(False)
for op,neg in(('==',False),('!=',True)):
    M[ND+'operator'+op]=nodecmp(neg)
    for nm in('_Node_iterator_base','_Node_iterator','_Node_const_iterator'): M[ND+nm+'::operator'+op]=nodecmp(neg)
# ---- pair, tuple ------------------------------------------------------------------
@model('std::pair::pair')
def m_pair(I,f,this,args,st,n):
    if f.get('sk') in('cc','mc'):
        st,v=I.rd(st,args[0]); return [(I.wr(st,this,v),None)]
    ps=f['ps']; ta=I.p.recs[f['cls']]['ta']
    if len(ps)==0: return [(I.wr(st,this,Rec(f['cls'],{'first':UNDEF,'second':UNDEF})),None)]
    if len(ps)==1:
        st,v=arg(I,f,args,0,st)
        if isinstance(v,tuple) and v[0]=='R': return [(I.wr(st,this,Rec(f['cls'],dict(v[2]))),None)]
        return top(st,'pair1')
    if len(ps)==2:
        st,a=arg(I,f,args,0,st); st,b=arg(I,f,args,1,st)
        # conversions between iterator types are identities on values
        return [(I.wr(st,this,Rec(f['cls'],{'first':a,'second':b})),None)]
    if len(ps)==3:
        t1,t2=args[1],args[2]
        st=I.wr(st,this,Rec(f['cls'],{}))
        out=[]
        for x in from_tuple(I,st,I.sub(this,'first'),ta[0]['t'],t1,n):
            out+=[(y,None) for y in from_tuple(I,x,I.sub(this,'second'),ta[1]['t'],t2,n)]
        return out
    return top(st,'pair')
def from_tuple(I,st,tgt,T,t,n):
    if not(isinstance(t,tuple) and t[:2]==('T','tuple')): return [st.mktop('tuple')]
    types,vals=t[2],t[3]
    r=I.p.recs.get(I.ty(T).get('r'))
    if r is None or not r['in']:
        if len(vals)==1:
            st,v=I.rd(st,vals[0]) if I.isref(types[0]) else (st,vals[0])
            return [I.wr(st,tgt,v)]
        return [st.mktop('tuple ctor')]
    # overload resolution among the constructors of the class
    best=None
    for f in I.p.fns.values():
        if f.get('cls')!=r['id'] or f.get('kind')!='ctor' or len(f['ps'])!=len(vals): continue
        sc=0
        for p,ty in zip(f['ps'],types):
            s=bind(I,ty,p['t'])
            if s is None: sc=None; break
            sc+=s
        if sc is not None and (best is None or sc>best[0]): best=(sc,f)
    if best is None: return [st.mktop('no ctor')]
    f=best[1]
    args=[]
    for p,ty,v in zip(f['ps'],types,vals):
        pc,vc=I.cls(p['t']),I.cls(ty)
        if pc!=vc and pc is not None:
            st,x=I.rd(st,v)
            if isinstance(x,tuple) and x[0]=='R': x=Rec(pc,dict(x[2]))
            st,v=I.mat(st,x,None)
        args.append(v)
    return [x for x,_ in I.call(f['id'],tgt,args,st,n)]
def bind(I,src,dst):
    """score of binding an argument of reference type src to parameter dst, or None"""
    k,d=I.ty(src),I.ty(dst)
    if not I.isref(dst): return 0
    sp,dp=I.p.tstr(k['p']),I.p.tstr(d['p'])
    un=lambda x:x[6:] if x.startswith('const ') else x
    if un(sp)!=un(dp):
        if 'allocator_adaptor' in sp and 'allocator_adaptor' in dp and dp.startswith('const '): return 0
        return None
    if d['k']=='rref': return 3 if k['k']=='rref' and (dp.startswith('const ') or not sp.startswith('const ')) else None
    if dp.startswith('const '): return 1
    return 2 if k['k']=='lref' and not sp.startswith('const ') else None
def packtypes(I,cls):
    out=[]
    for a in I.p.recs[cls].get('ta',()):
        if 'pack' in a: out+=[x['t'] for x in a['pack']]
        elif 't' in a: out.append(a['t'])
    return tuple(out)
@model('std::tuple::tuple')
def m_tuple(I,f,this,args,st,n):
    if f.get('sk') in('cc','mc'):
        st,v=I.rd(st,args[0]); return [(I.wr(st,this,v),None)]
    ts=packtypes(I,f['cls'])
    if len(ts)!=len(args): return top(st,'tuple')
    vals=[]
    for i,t in enumerate(ts):
        if I.isref(t): vals.append(args[i])
        else:
            st,v=arg(I,f,args,i,st); vals.append(v)
    return [(I.wr(st,this,tok('tuple',ts,tuple(vals))),None)]
@model('std::forward_as_tuple')
def m_fat(I,f,this,args,st,n):
    return [(st,tok('tuple',tuple(p['t'] for p in f['ps']),tuple(args)))]
@model('std::tie')
def m_tie(I,f,this,args,st,n):
    return [(st,tok('tuple',tuple(p['t'] for p in f['ps']),tuple(args)))]
@model('std::tuple::operator=')
def m_tupasg(I,f,this,args,st,n):
    st,t=I.rd(st,this); st,v=I.rd(st,args[0])
    if not(isinstance(t,tuple) and t[:2]==('T','tuple') and all(I.isref(x) for x in t[2])): return top(st,'tuple=')
    if isinstance(v,tuple) and v[0]=='R': vs=[rget(v,'first'),rget(v,'second')]
    elif isinstance(v,tuple) and v[:2]==('T','tuple') and not any(I.isref(x) for x in v[2]): vs=list(v[3])
    else: return top(st,'tuple=')
    if len(vs)!=len(t[3]): return top(st,'tuple=')
    for a,x in zip(t[3],vs): st=I.wr(st,a,x)
    return [(st,this)]
@model('std::get')
def m_get(I,f,this,args,st,n):
    st,t=I.rd(st,args[0])
    i=None
    for a in f.get('ta',()):
        if 'i' in a: i=a['i']; break
        if 'v' in a: i=a['v']; break
    if i is None: return top(st,'get')
    i=int(i)
    if isinstance(t,tuple) and t[:2]==('T','tuple'):
        if i>=len(t[3]): return top(st,'get')
        if I.isref(t[2][i]): return [(st,t[3][i])]
        st,a=I.mat(st,t[3][i],None); return [(st,a)]
    if isinstance(t,tuple) and t[0]=='R': return [(st,I.sub(args[0],('first','second')[i]))]
    return top(st,'get')
@model('std::make_pair')
def m_mkpair(I,f,this,args,st,n):
    st,a=I.rd(st,args[0]); st,b=I.rd(st,args[1])
    return [(st,Rec(I.cls(f['ret']),{'first':a,'second':b}))]
M['~std::pair']=None; del M['~std::pair']
# ---- iterators of the user ----------------------------------------------------------
UI='vt::user_iter::'
@model(UI+'operator*')
def m_uideref(I,f,this,args,st,n):
    st,v=I.rd(st,this)
    I.throw(st,EXC_USER)
    return [(st.event('deref',rget(v,'p')),rget(v,'p'))]
@model(UI+'operator++')
def m_uiinc(I,f,this,args,st,n):
    st,v=I.rd(st,this)
    I.throw(st,EXC_USER)
    p=rget(v,'p'); z=vesz(I,st,p)
    if z is None: return top(st,'ui++')
    st=I.wr(st,this,rset(v,'p',B(p[1],p[2]+z)))
    return [(st.event('inc'),v if args else this)]
def uicmp(op):
    def m(I,f,this,args,st,n):
        st,a=I.rd(st,args[0]); st,b=I.rd(st,args[1])
        return [(st,I.cmp(op,rget(a,'p'),rget(b,'p'),st))]
    return m
M['vt::operator==']=uicmp('=='); M['vt::operator!=']=uicmp('!=')
@model('std::distance')
def m_distance(I,f,this,args,st,n):
    st,a=arg(I,f,args,0,st); st,b=arg(I,f,args,1,st)
    r=src_range(I,st,a,b)
    if r is not None: return [(st,r[2])]
    # an iterator of the library: interpreted difference
    return advance_like(I,f,args,st,n,'distance')
@model('std::next','std::prev','std::advance')
def m_next(I,f,this,args,st,n):
    return advance_like(I,f,args,st,n,f['n'])
def advance_like(I,f,args,st,n,what):
    t=f['ps'][0]['t']; c=I.cls(t)
    st,v=arg(I,f,args,0,st)
    k=ONE
    if what in('next','prev','advance') and len(args)>1: st,k=arg(I,f,args,1,st)
    if what=='prev': k=-k if isinstance(k,Aff) else k
    if what!='distance':
        if isinstance(v,tuple) and v[0]=='B':
            # raw pointer
            tt=I.ty(I.ty(t)['p']) if I.isref(t) else I.ty(t)
            z=I.size(tt['p']) if tt['k']=='ptr' else vesz(I,st,v)
            if z and isinstance(k,Aff):
                r=I.ptradd(v,k,z)
                if what=='advance': return [(I.wr(st,args[0],r),None)]
                return [(st,r)]
        R=I.p.recs.get(c)
        if R:
            # library iterator: interpret operator++ / += of its class (or its facade)
            o=('t','m',I.uid()); st=st.set(o,v)
            if k==ONE or k==-ONE:
                g=I.method(c,'operator++' if k==ONE else 'operator--',0)
                if g is not None:
                    out=[]
                    for x,_ in I.call(g,L(o) if what!='advance' else args[0],[],st,n):
                        if what=='advance': out.append((x,None)); continue
                        x,w=I.rd(x,L(o)); out.append((x.rm([o]),w))
                    return out
            g=I.method(c,'operator+=',1)
            if g is not None and isinstance(k,Aff):
                out=[]
                for x,_ in I.call(g,L(o) if what!='advance' else args[0],[k],st,n):
                    if what=='advance': out.append((x,None)); continue
                    x,w=I.rd(x,L(o)); out.append((x.rm([o]),w))
                return out
    return top(st,what)
# ---- functional -----------------------------------------------------------------------
@model('std::ref','std::cref')
def m_ref(I,f,this,args,st,n): return [(st,tok('ref',args[0]))]
@model('std::reference_wrapper::operator()')
def m_rwcall(I,f,this,args,st,n): return [(st.event('ucall',this),I.fresh('r'))]
@model('std::function::function')
def m_function(I,f,this,args,st,n): return [(I.wr(st,this,tok('function')),None)]
M['~std::function']=lambda I,R,a,st:[st]
@model('std::logic_error::logic_error','std::runtime_error::runtime_error')
def m_lerr(I,f,this,args,st,n): return [(st,None)]
@model('boost::throw_exception')
def m_bthrow(I,f,this,args,st,n):
    I.throw(st,tok('exc',I.uq(I.ty(f['ps'][0]['t'])['p'])))
    return []
# ---- Boost.TypeErasure -----------------------------------------------------------------
TE='boost::type_erasure::'
@model(TE+'any::any',TE+'param::param')
def m_any(I,f,this,args,st,n):
    if f.get('sk') in('cc','mc'):
        st,v=I.rd(st,args[0]); return [(I.wr(st,this,v),None)]
    t=f['ps'][0]['t']
    a=args[0]
    v=None
    if 'type_erasure::any<' in I.ty(I.ty(t)['p'] if I.isref(t) else t)['s']: st,v=I.rd(st,a) if I.isref(t) else (st,a)
    if isinstance(v,tuple) and v[0]=='R' and dict(v[2]).get('$any'): return [(I.wr(st,this,Rec(f['cls'],dict(v[2]))),None)]
    return [(I.wr(st,this,Rec(f['cls'],{'$any':True,'px':a,'ti':I.uq(I.ty(t)['p'] if I.isref(t) else t)})),None)]
M['~'+TE+'any']=lambda I,R,a,st:[st]
@model(TE+'any_cast')
def m_anycast(I,f,this,args,st,n):
    st,v=I.rd(st,args[0])
    if isinstance(v,tuple) and v[0]=='R': return [(st,rget(v,'px'))]
    if isinstance(v,tuple) and v[:2]==('T','raw'):
        return [(st.event('VIOL','access to an element reference outside the index of its segment',I.trace()),TOP('raw'))]
    return top(st,'any_cast')
@model(TE+'typeid_of')
def m_typeidof(I,f,this,args,st,n):
    st,v=I.rd(st,args[0])
    if isinstance(v,tuple) and v[0]=='R' and isinstance(rget(v,'ti'),str): return [(st,L(('ti',rget(v,'ti'),0)))]
    if isinstance(v,tuple) and v[:2]==('T','raw'):
        return [(st.event('VIOL','access to an element reference outside the index of its segment',I.trace()),TOP('raw'))]
    return top(st,'typeid_of')

# ---- observation points of the witnesses ------------------------------------------------
@model('vt::sink')
def m_sink(I,f,this,args,st,n):
    a=args[0]
    return [(st.event('visit',elem_addr(I,st,a)),None)]
@model('vt::sink_ti')
def m_sinkti(I,f,this,args,st,n): return [(st.event('visit_ti',tiname(args[0])),None)]
def elem_addr(I,st,a):
    """address of the element designated by a pointer to (a handle of) it"""
    if isinstance(a,tuple) and a[0]=='B':
        o=I.vecs(st).get(a[1])
        if o is None: return ('DANGLING',)
        v=o[1]
        if holder(I,v[5]): return a
        st2,x=I.rd(st,a)
        if isinstance(x,tuple) and x[0]=='R':
            for k,y in x[2]:
                if isinstance(y,tuple) and y[:1]==('B',): return y
        if isinstance(x,tuple) and x[:2]==('T','raw'): return ('PASTEND',)
    return TOP('elem')
