"""Algorithms: the order in which elements are handed to the client, their static
type, what is written and the result, checked along every abstract path by a
monitor per algorithm (its standard counterpart's definition)."""
from spec import *
from stdmodels import M,model
GH=('gh',)
FIELDS=('k','i','q','w0','w1','c','cnt','pend','hit','r','z')
class G(dict):
    """monitor state"""
    def pack(s): return ('GH',)+tuple(s[x] for x in FIELDS)
def unpack(v): return G(zip(FIELDS,v[1:]))
class Bad(Exception): pass
class Unk(Exception): pass
class Never(Exception):
    """the predicate, an equivalence, cannot answer so"""
class Split(Exception):
    """decide whether a==0 first"""
def isparam(x): return x[0]=='s' and x[1:2]=='#'
class Mon:
    probe=False
    def __init__(m,S,st,name,Ts,first,last,spec,const=True,ranges=None,**kw):
        m.S=S; m.I=S.I; m.Ts=Ts; m.spec=spec; m.kw=kw; m.const=const
        m.segs=[]
        for ti,nd,o in S.w.segs(st,name):
            sa,sv,ia,iv=S.w.stores(st,o)
            m.segs.append(dict(T=ti[4:],nd=nd,sb=sv[1],sz=sv[4],n=sv[2],hb=iv[1] if iv else None,hz=iv[4] if iv else None))
        m.ranges=ranges or [(first,last)]
    def start(m):
        k,i=m.ranges[0][0]
        return G(k=k,i=Aff.of(i),q='run',w0=ZERO,w1=ZERO,c=Aff.of(m.kw.get('f2',ZERO)),cnt=ZERO,pend=(),hit=(),r=0,z=0)
    # -- arithmetic
    def eq(m,st,a,why):
        """a==0, or Bad/Unk"""
        if st.cons.entails_eq(a): return
        m.notsure(st,[a-1,-a-1],st.cons.possible(a) and st.cons.possible(-a),why)
    def ge(m,st,a,why):
        if st.cons.entails(a): return
        m.notsure(st,[-a-1],st.cons.possible(a),why)
    def notsure(m,st,neg,poss,why):
        if not poss and not st.top: raise Bad(why)
        if m.probe: return
        # loops run zero times: the state is then exact
        z={x:ZERO for c in st.cons.s for x in c.syms() if isparam(x)}
        for a in neg: z.update({x:ZERO for x in a.syms() if isparam(x)})
        for a in neg:
            c=st.cons.subst(z).add(a.subst(z))
            if not c.infeasible() and not st.top: raise Bad(why)
        raise Unk(why)
    # -- positions
    def decode(m,st,a,want=None):
        """address of an element -> (k, index, 'base'|'typed')"""
        if not(isinstance(a,tuple) and a[0]=='B'): raise Unk('address %r'%(a,))
        for k,s in enumerate(m.segs):
            for b,z,kind in((s['sb'],s['sz'],'typed'),(s['hb'],s['hz'],'base')):
                if b==a[1]:
                    sub=a[2].c%z; i=(a[2]-sub).divexact(z)
                    if i is None: raise Unk('offset')
                    if m.S.kind==0:
                        off=m.S.boff[tn(s['T'])]
                        if want=='base':
                            if sub!=off: raise Bad('an element is reached through a misplaced address')
                            return k,i,'base'
                        if sub!=0: raise Bad('an element is reached through a misplaced address')
                        return k,i,'typed'
                    if sub: raise Bad('an element is reached through a misplaced address')
                    return k,i,kind
        raise Bad('something that is not an element of the collection is handed over')
    def limit(m,k,r):
        lk,li=m.ranges[r][1]
        return li if k==lk else m.segs[k]['n']
    def exhausted(m,st,g,k):
        """nothing is left before segment k of the current range"""
        if g['k']>=k: return
        why='elements of %s are skipped'
        if g['k']<len(m.segs): m.eq(st,m.limit(g['k'],g['r'])-g['i'],why%m.segs[g['k']]['T'])
        for j in range(g['k']+1,k): m.eq(st,m.limit(j,g['r']),why%m.segs[j]['T'])
    def isnext(m,st,g,k,i):
        lk,li=m.ranges[g['r']][1]
        if k>lk or k==lk and k>=len(m.segs): raise Bad('an element past the end of the range is processed')
        if k<g['k']: raise Bad('an element is processed again or out of order')
        if k==g['k']: m.eq(st,i-g['i'],'an element is processed out of order, twice, or is skipped')
        else:
            m.exhausted(st,g,k)
            m.eq(st,i,'the first elements of %s are skipped'%m.segs[k]['T'])
        m.ge(st,m.limit(k,g['r'])-i-1,'an element past the end of the range is processed')
    def nxt(m,st,g,e):
        k,i=e
        try: m.isnext(st,g,k,i)
        except (Bad,Unk):
            if g['r']+1<len(m.ranges):
                m.complete(st,g)
                g['r']+=1; g['k'],g['i']=m.ranges[g['r']][0]
                g['i']=Aff.of(g['i'])
                m.isnext(st,g,k,i)
            else: raise
        g['k']=k; g['i']=i+1
    def later(m,st,g,e):
        """e is not before the cursor"""
        k,i=e
        if k<g['k']: raise Bad('an element is processed again or out of order')
        if k==g['k']: m.ge(st,i-g['i'],'an element is processed again or out of order')
        m.member(st,e)
        g['k']=k; g['i']=i+1
    def member(m,st,e):
        k,i=e; (fk,fi),(lk,li)=m.ranges[0][0],m.ranges[-1][1]
        if k<fk or k>lk: raise Bad('an element outside the range is processed')
        if k==fk: m.ge(st,i-fi,'an element before the range is processed')
        else: m.ge(st,i,'an element before the segment is processed')
        m.ge(st,(li if k==lk else m.segs[k]['n'])-i-1,'an element past the end of the range is processed')
    def total(m):
        (fk,fi),(lk,li)=m.ranges[0]
        t=ZERO
        for k in range(fk,min(lk+1,len(m.segs))): t=t+(li if k==lk else m.segs[k]['n'])-(fi if k==fk else ZERO)
        return t
    def iscur(m,st,g,e,why):
        k,i=e
        if k!=g['k']: raise Bad(why)
        m.eq(st,i+1-g['i'],why)
    def complete(m,st,g):
        lk,li=m.ranges[g['r']][1]
        m.exhausted(st,g,lk)
        if lk<len(m.segs): m.eq(st,li-g['i'] if g['k']==lk else li,'the last elements of the range are not processed')
    def done(m,st,g):
        """everything is processed, in all ranges"""
        while True:
            m.complete(st,g)
            if g['r']+1>=len(m.ranges): return
            g['r']+=1; g['k'],g['i']=m.ranges[g['r']][0]; g['i']=Aff.of(g['i'])
    def narrow(m,st,n,v):
        """conversion of an integer that may not fit"""
        t=m.I.ty(n['t']); z=t.get('z')
        if z is None or z>=4 or 'bool' in t['s']: return st
        hi=(1<<(8*z-(0 if 'unsigned' in t['s'] else 1)))-1
        try: m.ge(st,Aff.of(hi)-v,'a number of elements is narrowed to a type that cannot hold it')
        except Bad as e: return st.event('VIOL',str(e),m.I.trace()).mktop('after a violation')
        except Unk as e: return st.mktop(str(e))
        return st
    # -- static types
    def typ(m,t,mut=False):
        s=m.S.p.tstr(t)
        rv=s.endswith('&&'); s=s.rstrip('& ')
        c=s.startswith('const ')
        return (s[6:] if c else s),c,rv
    def element(m,st,a,t,rv=False):
        """an element handed over with static type t"""
        s,c,isrv=m.typ(t)
        base=not any(s==tn(x['T']) for x in m.segs)
        k,i,how=m.decode(st,a,'base' if base else 'typed')
        T=m.segs[k]['T']
        if base:
            if T in m.Ts: raise Bad('C19|an element of the listed type %s is passed as the collection\'s value type'%T)
            if how!='base': raise Bad('C19|an element is passed as the wrong type')
        else:
            if s!=tn(T): raise Bad('C19|an element of type %s is passed as a %s'%(T,s))
            if T not in m.Ts: raise Bad('C19|an element of type %s, which is not listed, is passed as a %s'%(T,s))
            if how!='typed': raise Bad('C19|an element is passed as the wrong type')
        if m.const and not c: raise Bad('an element of a constant range is passed as mutable')
        if rv!=isrv: raise Bad('an element is %s'%('copied instead of moved' if rv else 'moved from'))
        return k,i
# ---- results --------------------------------------------------------------------------
def res_iter(m,st,v):
    """iterator value -> ('el',k,i) | ('end',)"""
    if not(isinstance(v,tuple) and v[0]=='R'): raise Unk('result')
    p=find_ptr(v)
    its=[x for _,x in v[2] if isinstance(x,tuple) and x[:1]==('I',)]
    if p is None: return ('end',)
    k,i,_=m.decode(st,p,'base')
    if not any(x==('I',m.segs[k]['nd']) for x in its): raise Bad('the resulting iterator belongs to another segment')
    return ('el',k,i)
def want_el(m,st,v,e,why='the resulting iterator designates another element'):
    r=res_iter(m,st,v)
    if r[0]=='end': raise Bad(why)
    if r[1]!=e[0]: raise Bad(why)
    m.eq(st,r[2]-e[1],why)
def want_last(m,st,v):
    lk,li=m.ranges[-1][1]
    if lk<len(m.segs): return want_el(m,st,v,(lk,li),'the resulting iterator is not the end of the range')
    if res_iter(m,st,v)[0]!='end': raise Bad('the resulting iterator is not the end of the range')
def want_next(m,st,g,v):
    """the iterator designates the element after the last one processed"""
    r=res_iter(m,st,v)
    if r[0]=='end':
        lk,li=m.ranges[-1][1]
        if lk<len(m.segs): raise Bad('the resulting iterator is the end of the collection')
        m.complete(st,g); return
    m.isnext(st,g,r[1],r[2])
def boolres(m,st,v,b):
    for x,c in m.I.branch(st,v):
        if x.top: raise Unk('result')
        if c!=b: raise Bad('the result is %s instead of %s'%(c,b))
def field(I,v,name):
    R=I.p.recs.get(v[1])
    for f in R.get('fields',()):
        if f['n']==name: return rget(v,f['id'] if R['in'] else name)
    return UNDEF
def outpos(m,v,which):
    p=field(m.I,v,'pos')
    if not isinstance(p,Aff): raise Unk('output')
    if field(m.I,v,'id')!=Aff.of(which): raise Bad('the result is another output iterator')
    return p
def want_out(m,st,g,v,which=0):
    m.eq(st,outpos(m,v,which)-g['w%d'%which],'the output iterator returned is not past the last element written')
# ---- monitors: event(m,st,g,kind,args...) may raise; predicates get the outcome ----------
class Alg:
    ret=None
    def p(s,m,st,g,e,b): raise Bad('an unexpected call of the predicate')
    def p2(s,m,st,g,x,y,b): raise Bad('an unexpected call of the predicate')
    def f(s,m,st,g,e): raise Bad('an unexpected call of the function')
    def op(s,m,st,g,e,y): raise Bad('an unexpected call of the operation')
    def w(s,m,st,g,which,src): raise Bad('an unexpected write')
    def end(s,m,st,g,v): pass
    def live(s,g):
        if g['q']=='stop': raise Bad('processing goes on after the result is decided')
    def el(s,x):
        if x[0]!='el': raise Bad('the element is not passed as this argument')
        return x[1:]
    def e2(s,m,st,y,c,why='the second range is not read in step'):
        if y[0]!='e2': raise Bad(why)
        m.eq(st,y[1]-c,why)
class Quant(Alg):
    """all_of, any_of, none_of: stops at the first element giving stop"""
    def __init__(s,stop,res): s.stop=stop; s.res=res
    def p(s,m,st,g,e,b):
        s.live(g); m.nxt(st,g,e)
        if b==s.stop: g['q']='stop'
    def end(s,m,st,g,v):
        if g['q']=='stop': boolres(m,st,v,s.res)
        else: m.done(st,g); boolres(m,st,v,not s.res)
class Find(Quant):
    def __init__(s,stop): s.stop=stop
    def p(s,m,st,g,e,b):
        Quant.p(s,m,st,g,e,b)
        if b==s.stop: g['hit']=e
    def end(s,m,st,g,v):
        if g['q']=='stop': want_el(m,st,v,g['hit'])
        else: m.done(st,g); want_last(m,st,v)
class ForEach(Alg):
    def f(s,m,st,g,e): m.nxt(st,g,e)
    def end(s,m,st,g,v): m.done(st,g)
class ForEachN(Alg):
    def f(s,m,st,g,e): m.nxt(st,g,e); g['cnt']=g['cnt']+1
    def end(s,m,st,g,v):
        m.eq(st,g['cnt']-m.kw['n'],'the number of elements processed is not the one asked for')
        want_next(m,st,g,v)
class Count(Alg):
    def p(s,m,st,g,e,b):
        m.nxt(st,g,e)
        if b: g['cnt']=g['cnt']+1
    def end(s,m,st,g,v):
        m.done(st,g)
        if not isinstance(v,Aff): raise Unk('result')
        m.eq(st,v-g['cnt'],'the count is not the number of elements found')
class FirstOf(Alg):
    def p2(s,m,st,g,x,y,b):
        s.live(g); e=s.el(x); f2,l2=m.kw['f2'],m.kw['l2']
        if y[0]!='e2': raise Bad('the second argument is not from the second range')
        if st.cons.entails_eq(y[1]-f2):
            if g['q']=='in': m.eq(st,g['c']-l2,'an element is not compared with the whole second range')
            m.nxt(st,g,e)
        else:
            if g['q']!='in': raise Bad('the second range is not read from its beginning')
            m.iscur(st,g,e,'elements are compared out of order')
            s.e2(m,st,y,g['c'])
        g['q']='in'; g['c']=y[1]+1
        if b: g['q']='stop'; g['hit']=e; g['c']=f2
    def end(s,m,st,g,v):
        if g['q']=='stop': want_el(m,st,v,g['hit']); return
        want_last(m,st,v)
        if st.cons.entails_eq(m.kw['f2']-m.kw['l2']): return
        if g['q']=='in': m.eq(st,g['c']-m.kw['l2'],'an element is not compared with the whole second range')
        m.done(st,g)
class Search(Alg):
    """attempts, each starting at the element after the start of the one before; hit: start
    of the last attempt, pend: start of the last match"""
    def __init__(s,last=False): s.last=last
    def p2(s,m,st,g,x,y,b):
        s.live(g); e=s.el(x); f2,l2=m.kw['f2'],m.kw['l2']
        if y[0]!='e2': raise Bad('the second argument is not from the second range')
        m.ge(st,l2-y[1]-1,'the second range is read past its end')
        if st.cons.entails_eq(y[1]-f2):
            if g['q']=='in':
                # the attempt before must have reached the end of the range
                m.complete(st,G(g)); g['k'],g['i']=g['hit'][0],g['hit'][1]+1
            m.nxt(st,g,e); g['hit']=e
        else:
            if g['q']!='in': raise Bad('the second range is not read from its beginning')
            s.e2(m,st,y,g['c']); m.nxt(st,g,e)
        g['q']='in'; g['c']=y[1]+1
        if not b:
            g['q']='run'; g['c']=f2; g['k'],g['i']=g['hit'][0],g['hit'][1]+1; g['hit']=()
        elif st.cons.entails_eq(g['c']-l2): s.match(m,g)
        elif not st.cons.entails(l2-g['c']-1): raise Split(g['c']-l2)
    def match(s,m,g):
        if not s.last: g['q']='stop'; return
        g['pend']=g['hit']; g['q']='run'; g['c']=m.kw['f2']; g['k'],g['i']=g['hit'][0],g['hit'][1]+1; g['hit']=()
    def end(s,m,st,g,v):
        if st.cons.entails_eq(m.kw['f2']-m.kw['l2']):
            if s.last: want_last(m,st,v)
            else: want_el(m,st,v,m.ranges[0][0]) if m.ranges[0][0][0]<len(m.segs) else want_last(m,st,v)
            return
        if g['q']=='stop': want_el(m,st,v,g['hit']); return
        if g['pend']: want_el(m,st,v,g['pend'])
        else: want_last(m,st,v)
        # an attempt that reaches the end of the range rules out the later ones
        m.done(st,g)
class Adjacent(Alg):
    def p2(s,m,st,g,x,y,b):
        s.live(g); a,e=s.el(x),s.el(y)
        if g['q']=='run': m.nxt(st,g,a); g['q']='in'
        m.iscur(st,g,a,'the first argument is not the element before')
        m.nxt(st,g,e)
        if b: g['q']='stop'; g['hit']=a
    def end(s,m,st,g,v):
        if g['q']=='stop': want_el(m,st,v,g['hit']); return
        want_last(m,st,v)
        if g['q']=='run':
            # no call: at most one element
            (fk,fi),(lk,li)=m.ranges[0]
            if fk>=len(m.segs): return
            try: m.done(st,G(g)); return
            except (Bad,Unk): g['i']=fi+1
        m.done(st,g)
class Mismatch(Alg):
    def p2(s,m,st,g,x,y,b):
        s.live(g); e=s.el(x); s.e2(m,st,y,g['c'])
        if 'l2' in m.kw: m.ge(st,m.kw['l2']-g['c']-1,'the second range is read past its end')
        if b: m.nxt(st,g,e); g['c']=g['c']+1
        else:
            m.nxt(st,g,e); g['q']='stop'; g['hit']=e
    def end(s,m,st,g,v):
        if not(isinstance(v,tuple) and v[0]=='R'): raise Unk('result')
        a,b=rget(v,'first'),rget(v,'second')
        if not(isinstance(b,tuple) and b[0]=='R'): raise Unk('result')
        pos=field(m.I,b,'pos')
        if not isinstance(pos,Aff): raise Unk('result')
        m.eq(st,pos-g['c'],'the second iterator returned does not match the first')
        if g['q']=='stop': want_el(m,st,a,g['hit']); return
        if 'l2' in m.kw and st.cons.entails_eq(g['c']-m.kw['l2']): want_next2(m,st,g,a); return
        m.done(st,g); want_last(m,st,a)
def want_next2(m,st,g,a):
    """the element after the last one processed or the end of the range"""
    lk,li=m.ranges[-1][1]
    try: m.complete(st,g)
    except (Bad,Unk): return want_next(m,st,g,a)
    want_last(m,st,a)
class Equal(Alg):
    def p2(s,m,st,g,x,y,b):
        s.live(g); e=s.el(x); s.e2(m,st,y,g['c'])
        if 'l2' in m.kw: m.ge(st,m.kw['l2']-g['c']-1,'the second range is read past its end')
        m.nxt(st,g,e); g['c']=g['c']+1
        if not b: g['q']='stop'
    def end(s,m,st,g,v):
        if g['q']=='stop': boolres(m,st,v,False); return
        for x,b in m.I.branch(st,v):
            if x.top: raise Unk('result')
            if b:
                m.done(x,dict(g))
                if 'l2' in m.kw: m.eq(x,m.kw['l2']-g['c'],'true although the second range is longer')
            elif 'l2' not in m.kw: raise Bad('the result is false although no pair differs')
            else:
                # one of the ranges must be longer
                d=m.kw['l2']-g['c']
                if x.cons.entails(d-1):
                    m.done(x,G(g)); continue
                if not x.cons.entails_eq(d): raise Unk('lengths')
                try: m.complete(x,G(g))
                except (Bad,Unk): continue
                raise Bad('the result is false although the ranges are equal')
class Member(Alg):
    """only elements of the ranges are handed over"""
    def p(s,m,st,g,e,b): m.member(st,e)
    def p2(s,m,st,g,x,y,b):
        for z in(x,y):
            if z[0]=='el': m.member(st,z[1:])
            elif z[0]=='e2' and 'l2' in m.kw:
                m.ge(st,z[1]-m.kw['f2'],'the second range is read before its beginning')
                m.ge(st,m.kw['l2']-z[1]-1,'the second range is read past its end')
class Perm(Alg):
    """is_permutation: elements of both ranges are handed over, the answers of the predicate
    (an equivalence) are remembered, the result must be the one they determine"""
    def node(s,m,st,z):
        if z[0]=='el':
            m.member(st,z[1:]); d=z[2]
            if not d.isconst(): raise Unk('position')
            return (0,z[1],int(d.c))
        if z[0]!='e2': raise Bad('something that is not an element is handed over')
        d=z[1]-m.kw['f2']
        if not d.isconst(): raise Unk('position')
        if d.c<0: raise Bad('the second range is read before its beginning')
        if d.c>=s.n2(m): raise Bad('the second range is read past its end')
        return (1,0,int(d.c))
    def n2(s,m): return int((m.kw['l2']-m.kw['f2']).c) if 'l2' in m.kw else int(m.total().c)
    def nodes(s,m):
        (fk,fi),(lk,li)=m.ranges[0]; out=[]
        for k in range(fk,min(lk+1,len(m.segs))):
            a=int(Aff.of(fi).c) if k==fk else 0; b=int(Aff.of(li if k==lk else m.segs[k]['n']).c)
            out+=[(0,k,i) for i in range(a,b)]
        return out,[(1,0,i) for i in range(s.n2(m))]
    def p2(s,m,st,g,x,y,b):
        x,y=s.node(m,st,x),s.node(m,st,y)
        g['pend']=tuple(sorted(set(g['pend'])|{(min(x,y),max(x,y),b)}))
        if not any(True for _ in s.models(m,g)): raise Never()
    def models(s,m,g):
        """the equivalences agreeing with the answers"""
        A,B=s.nodes(m); al=A+B; pos={x:i for i,x in enumerate(al)}
        facts=[]
        for x,y,b in g['pend']:
            if x not in pos or y not in pos: raise Bad('an element outside the range is processed')
            facts.append((min(pos[x],pos[y]),max(pos[x],pos[y]),b))
        def go(i,cl,k):
            if i==len(al): yield cl; return
            for c in range(k+1):
                if all((c==cl[x] if x<i else True)==b for x,y,b in facts if y==i and x<i) and all(b for x,y,b in facts if x==y==i): yield from go(i+1,cl+(c,),max(k,c+1))
        yield from go(0,(),0)
    def end(s,m,st,g,v):
        A,B=s.nodes(m); res={sorted(c[:len(A)])==sorted(c[len(A):]) for c in s.models(m,g)}
        for x,b in m.I.branch(st,v):
            if x.top: raise Unk('result')
            if (not b) in res: raise Bad('the result is %s although the ranges may%s be permutations of each other'%(str(b).lower(),' not' if b else ''))
class Copy(Alg):
    rv=False
    def w(s,m,st,g,which,src):
        if src[0]!='el': raise Bad('something that is not an element is written')
        m.nxt(st,g,src[1:])
    def end(s,m,st,g,v): m.done(st,g); want_out(m,st,g,v)
class CopyN(Copy):
    def end(s,m,st,g,v):
        m.eq(st,g['w0']-m.kw['n'],'the number of elements written is not the one asked for'); want_out(m,st,g,v)
class CopyIf(Alg):
    def __init__(s,keep,other=None): s.keep=keep; s.other=other
    def settled(s,g):
        if g['pend']: raise Bad('an element that qualifies is not written')
    def p(s,m,st,g,e,b):
        s.settled(g); m.nxt(st,g,e)
        if b==s.keep: g['pend']=('el',)+e
        elif s.other: g['pend']=('val',s.other)
    def w(s,m,st,g,which,src):
        if not g['pend']: raise Bad('an element that does not qualify is written')
        same_src(m,st,src,g['pend']); g['pend']=()
    def end(s,m,st,g,v): s.settled(g); m.done(st,g); want_out(m,st,g,v)
def same_src(m,st,a,b):
    if a[:2]!=b[:2]: raise Bad('another element or value is written than the one processed')
    if a[0]=='el': m.eq(st,a[2]-b[2],'another element is written than the one processed')
    elif a!=b: m.eq(st,a[2]-b[2],'another result is written than the one computed')
class PartCopy(CopyIf):
    def __init__(s): pass
    def p(s,m,st,g,e,b): s.settled(g); m.nxt(st,g,e); g['pend']=('el',)+e+(0 if b else 1,)
    def w(s,m,st,g,which,src):
        if not g['pend']: raise Bad('an element is written twice')
        if g['pend'][3]!=which: raise Bad('an element is written to the wrong output')
        same_src(m,st,src,g['pend']); g['pend']=()
    def end(s,m,st,g,v):
        s.settled(g); m.done(st,g)
        want_out(m,st,g,rget(v,'first'),0); want_out(m,st,g,rget(v,'second'),1)
class Transform(CopyIf):
    def __init__(s,two): s.two=two
    def op(s,m,st,g,e,y):
        s.settled(g); m.nxt(st,g,e); g['pend']=('op',)+e
        if s.two: s.e2(m,st,y,g['c']); g['c']=g['c']+1
class Unique(Alg):
    # hit: an element known equal to the one before the cursor
    def w(s,m,st,g,which,src):
        if src[0]!='el': raise Bad('something that is not an element is written')
        if g['q']=='run': m.nxt(st,g,src[1:]); g['q']='in'; g['hit']=src[1:]; g['z']=src[1]
        elif g['pend']: same_src(m,st,src,g['pend']); g['pend']=()
        else: raise Bad('an element that does not qualify is written')
    def p2(s,m,st,g,x,y,b):
        a,e=s.el(x),s.el(y)
        if g['pend']: raise Bad('an element that qualifies is not written')
        if g['q']!='in': raise Bad('the first element is not written')
        # z: segment in which the current group of equal elements starts; hit: one of the group
        prev=True
        try: m.iscur(st,g,a,'')
        except (Bad,Unk):
            prev=False
            why='the first argument is not an element equal to the one before'
            if a[0]<g['z'] or a[0]>g['k']: raise Bad(why)
            if a[0]==g['z']==g['k']: m.ge(st,a[1]-(m.ranges[0][0][1] if a[0]==m.ranges[0][0][0] else ZERO)-g['cnt'],why)
            if a[0]!=g['hit'][0]: raise Unk(why)
            try: m.eq(st,a[1]-g['hit'][1],why)
            except Bad: raise Unk(why)
        new=e[0]!=g['k']; m.nxt(st,g,e)
        # cnt: groups begun in this segment after its first element
        if new: g['cnt']=ZERO
        elif not b: g['cnt']=g['cnt']+1
        if not b: g['z']=e[0]
        g['hit']=a if b and (not prev or a[0]!=e[0]) else e
        if not b: g['pend']=('el',)+e
    def end(s,m,st,g,v):
        if g['pend']: raise Bad('an element that qualifies is not written')
        m.done(st,g); want_out(m,st,g,v)
class SearchN(Alg):
    def p2(s,m,st,g,x,y,b):
        s.live(g); e=s.el(x); m.nxt(st,g,e)
        if y!=('val','v'): raise Bad('elements are not compared with the value given')
        n=m.kw['n'].c; r=int(g['q'][1:]) if g['q'][0]=='r' and g['q']!='run' else 0
        if not b: g['q']='run'; g['hit']=()
        else:
            if r==0: g['hit']=e
            r+=1
            g['q']='stop' if r==n else 'r%d'%r
    def end(s,m,st,g,v):
        n=m.kw['n'].c
        if n<=0: 
            fk,fi=m.ranges[0][0]
            if fk<len(m.segs): want_el(m,st,v,(fk,fi))
            return
        if g['q']=='stop': want_el(m,st,v,g['hit'],'the result is not the first element of the run')
        else: m.done(st,g); want_last(m,st,v)
    def p(s,m,st,g,e,b): s.p2(m,st,g,('el',)+e,('val','v'),b)
class Partitioned(Alg):
    def p(s,m,st,g,e,b):
        s.live(g); m.nxt(st,g,e)
        if g['q']=='run' and not b: g['q']='second'
        elif g['q']=='second' and b: g['q']='stop'
    def end(s,m,st,g,v):
        if g['q']=='stop': boolres(m,st,v,False)
        else: m.done(st,g); boolres(m,st,v,True)
class PartPoint(Alg):
    def p(s,m,st,g,e,b):
        m.member(st,e)
        if g['q']=='free': return
        try:
            s.live(g); m.nxt(st,g,e)
            if not b: g['q']='stop'; g['hit']=e
        except (Bad,Unk): g['q']='free'
    def end(s,m,st,g,v):
        if g['q']=='stop': want_el(m,st,v,g['hit'])
        elif g['q']=='run':
            try: m.done(st,g)
            except (Bad,Unk): return
            want_last(m,st,v)
class Sample(Alg):
    """elements in order of segments; as many as asked for or there are"""
    def w(s,m,st,g,which,src):
        if src[0]!='el': raise Bad('something that is not an element is written')
        m.member(st,src[1:])
        if src[1]<g['k']: raise Bad('the elements are written out of order')
        g['k']=src[1]
    def end(s,m,st,g,v):
        want_out(m,st,g,v)
        w=g['w0']-sym('P0'); n=m.kw['n']; t=m.total()
        why='the number of elements written is not the one asked for'
        for c,x in((t-n,n),(n-t-1,t)):
            y=st.assume(c)
            if not y.dead(): m.eq(y,w-x,why)
# ---- the client's side ---------------------------------------------------------------------
def mon_event(I,st,name,fn,outcomes=(None,)):
    """apply the monitor; -> [(state, outcome)]"""
    m=I.mon; out=[]
    work=[(st,b) for b in outcomes]
    while work:
        x,b=work.pop(0)
        g=unpack(x.mem[GH])
        try: fn(m,x,g,b)
        except Split as e:
            ys=[y for y,_ in I.branch(x,('c','==0',e.args[0]))]
            if len(ys)<2: ys=[x.mktop(name)]
            work=[(y,b) for y in ys if not y.top]+work
            out+=[(y,b) for y in ys if y.top]
            continue
        except Never: continue
        except Bad as e:
            w=str(e); x=x.event('VIOL',w,I.trace()); x=x.mktop('after a violation')
        except Unk as e: x=x.mktop('%s: %s'%(name,e))
        out.append((x.set(GH,g.pack()),b))
    return out
def operand(I,st,a,t,rv=False):
    m=I.mon; s,c,isrv=m.typ(t)
    if isinstance(a,tuple) and a[0]=='B' and a[1]=='E2': return ('e2',a[2])
    if s=='va::val':
        if isinstance(a,tuple) and a[0]=='L' and a[1][0]=='u': return ('val',a[1][1])
        raise Unk('value')
    if s=='va::r1':
        x,v=I.rd(st,a)
        if isinstance(v,tuple) and v[:2]==('T','op'): return ('op',)+v[2:]
        raise Unk('result')
    return ('el',)+m.element(st,a,t,rv)
def elem(I,st,a,t):
    x=operand(I,st,a,t)
    if x[0]!='el': raise Bad('something that is not an element is handed over')
    return x[1:]
@model('va::pred::operator()')
def m_pred(I,f,this,args,st,n):
    t=f['ps'][0]['t']
    return mon_event(I,st,'predicate',lambda m,x,g,b:m.spec.p(m,x,g,elem(I,x,args[0],t),b),(True,False))
@model('va::operator==')
def m_valeq(I,f,this,args,st,n):
    ts=[p['t'] for p in f['ps']]
    if I.mon.typ(ts[0])[0]=='va::in': return NotImplemented
    if I.mon.typ(ts[1])[0]=='va::e2':
        return mon_event(I,st,'comparison',lambda m,x,g,b:m.spec.p2(m,x,g,operand(I,x,args[0],ts[0]),operand(I,x,args[1],ts[1]),b),(True,False))
    def ev(m,x,g,b):
        if operand(I,x,args[1],ts[1])!=('val','v'): raise Bad('elements are not compared with the value given')
        m.spec.p(m,x,g,elem(I,x,args[0],ts[0]),b)
    return mon_event(I,st,'comparison',ev,(True,False))
UIEQ=M['vt::operator==']
@model('boost::poly_collection::detail::operator==','boost::type_erasure::operator==')
def m_eleq(I,f,this,args,st,n):
    if f.get('b') or I.mon is None: return NotImplemented
    return m_pred2(I,f,this,args,st,n)
@model('vt::operator==')
def m_eleq2(I,f,this,args,st,n): return (UIEQ if I.mon is None else m_eleq)(I,f,this,args,st,n)
@model('va::pred2::operator()')
def m_pred2(I,f,this,args,st,n):
    ts=[p['t'] for p in f['ps']]
    return mon_event(I,st,'predicate',lambda m,x,g,b:m.spec.p2(m,x,g,operand(I,x,args[0],ts[0]),operand(I,x,args[1],ts[1]),b),(True,False))
@model('va::fun::operator()')
def m_fun(I,f,this,args,st,n):
    t=f['ps'][0]['t']
    return mon_event(I,st,'function',lambda m,x,g,b:m.spec.f(m,x,g,elem(I,x,args[0],t)))
@model('va::op1::operator()','va::op2::operator()')
def m_op(I,f,this,args,st,n):
    ts=[p['t'] for p in f['ps']]; res={}
    def ev(m,x,g,b):
        e=elem(I,x,args[0],ts[0]); y=operand(I,x,args[1],ts[1]) if len(ts)>1 else None
        m.spec.op(m,x,g,e,y); res['e']=e
    out=mon_event(I,st,'operation',ev)
    return [(x,tok('op',*res['e']) if 'e' in res else TOP('op')) for x,_ in out]
@model('va::in::operator*')
def m_in(I,f,this,args,st,n):
    st,v=I.rd(st,this)
    p=field(I,v,'pos') if isinstance(v,tuple) and v[0]=='R' else None
    if not isinstance(p,Aff): return [(st.mktop('second range'),TOP('in'))]
    return [(st,B('E2',p))]
@model('va::prx::operator=')
def m_write(I,f,this,args,st,n):
    st,v=I.rd(st,this)
    t=f['ps'][0]['t']
    def ev(m,x,g,b):
        pos,w=field(I,v,'pos'),field(I,v,'id')
        if not isinstance(pos,Aff) or not isinstance(w,Aff) or not w.isconst(): raise Unk('output')
        k='w%d'%w.c
        m.eq(x,pos-g[k],'an element is written at the wrong position of the output')
        m.spec.w(m,x,g,w.c,operand(I,x,args[0],t,getattr(m.spec,'rv',False)))
        g[k]=g[k]+1
    return [(x,None) for x,_ in mon_event(I,st,'write',ev)]
@model('va::uid::uid')
def m_uid(I,f,this,args,st,n):
    return [(I.wr(st,this,tok('uid',*args)),None)]
@model('va::uid::operator()')
def m_uidc(I,f,this,args,st,n):
    st,v=I.rd(st,this)
    r=I.fresh('r')
    if isinstance(v,tuple) and v[:2]==('T','uid') and all(isinstance(x,Aff) for x in v[2:4]): st=st.assume(r-v[2]).assume(v[3]-r)
    return [(st,r)]
# ---- obligations -------------------------------------------------------------------------------
# entry -> (monitor, arguments); a,b range; i second range start; I second range with end; o output
# p function object; v,w values; n count; N count type of one byte; m middle; g generator
ALGS={
 'all_of':(Quant(False,False),'abp'),'any_of':(Quant(True,True),'abp'),'none_of':(Quant(True,False),'abp'),
 'for_each':(ForEach(),'abp'),'for_each_m':(ForEach(),'ABp'),'for_each_n':(ForEachN(),'anp'),'for_each_nb':(ForEachN(),'aNp'),
 'find':(Find(True),'abv'),'find_if':(Find(True),'abp'),'find_if_not':(Find(False),'abp'),
 'find_first_of':(FirstOf(),'abIp'),'find_first_of_e':(FirstOf(),'abI'),'adjacent_find':(Adjacent(),'abp'),
 'count':(Count(),'abv'),'count_if':(Count(),'abp'),
 'mismatch':(Mismatch(),'abip'),'mismatch_e':(Mismatch(),'abi'),'mismatch_l':(Mismatch(),'abIp'),
 'equal':(Equal(),'abip'),'equal_e':(Equal(),'abi'),'equal_l':(Equal(),'abIp'),'equal_le':(Equal(),'abI'),
 'is_permutation':(Perm(),'abip'),'is_permutation_l':(Perm(),'abIp'),'search':(Search(),'abIp'),'find_end':(Search(True),'abIp'),
 'adjacent_find_e':(Adjacent(),'ab'),'unique_copy_e':(Unique(),'abo'),'is_permutation_e':(Perm(),'abi'),'is_permutation_le':(Perm(),'abI'),
 'mismatch_le':(Mismatch(),'abI'),'search_e':(Search(),'abI'),'find_end_e':(Search(True),'abI'),
 'find_if_m':(Find(True),'ABp'),'adjacent_find_m':(Adjacent(),'ABp'),'for_each_nm':(ForEachN(),'Anp'),'mismatch_m':(Mismatch(),'ABip'),'transform_m':(Transform(False),'ABop'),
 'search_n':(SearchN(),'absvp'),'search_ne':(SearchN(),'absv'),
 'copy':(Copy(),'abo'),'copy_n':(CopyN(),'ano'),'copy_nb':(CopyN(),'aNo'),'copy_if':(CopyIf(True),'abop'),
 'move':(type('Move',(Copy,),{'rv':True})(),'ABo'),
 'transform':(Transform(False),'abop'),'transform2':(Transform(True),'abiop'),
 'replace_copy':(CopyIf(False,'w'),'abovw'),'replace_copy_if':(CopyIf(False,'w'),'abopw'),
 'remove_copy':(CopyIf(False),'abov'),'remove_copy_if':(CopyIf(False),'abop'),
 'unique_copy':(Unique(),'abop'),'rotate_copy':(Copy(),'ambo'),
 'sample':(Sample(),'abong'),'sample_b':(Sample(),'aboNg'),
 'is_partitioned':(Partitioned(),'abp'),'partition_copy':(PartCopy(),'aboOp'),'partition_point':(PartPoint(),'abp')}
CFG={'gen':[('D1','gen'),('D2','gen'),('D3','gen')],'one':[('D2','gen')],'void':[('D1','fresh'),('D3','fresh')],'mix':[('D3','gen'),('D1','fresh'),('D2','gen')]}
# (configuration, first, last): positions (type, symbol) or 'end'
SHAPES=[('gen',('D1','K'),'end'),('gen',('D1','K'),('D1','K2')),('gen',('D1','K'),('D3','K2')),('gen',('D2','K'),('D3','K2')),('gen',('D3','K'),'end'),
        ('gen','end','end'),('void','end','end'),('one',('D2','K'),'end'),('one',('D2','K'),('D2','K2')),('mix',('D3','K'),'end'),('mix',('D3','K'),('D2','K2')),('gen',('D2','K'),('D2','K2'))]
# sizes are given: nested searches are decided for these shapes only
CFG.update({'c21':[('D1',2),('D2',1)],'c13':[('D3',1),('D1','fresh'),('D2',2)],'c4':[('D2',4)],'c111':[('D1',1),('D2',1),('D3',2)]})
HSHAPES=[('c21',('D1',0),'end'),('c13',('D3',0),'end'),('c4',('D2',0),('D2',3)),('c111',('D1',0),('D3',1)),('c111',('D2',0),'end'),('c21',('D1',1),'end'),('c111',('D1',0),'end'),('void','end','end')]
HBASE=100
def pv(x): return Aff.of(x) if isinstance(x,int) else sym(x)
def ob_alg(S,nm,inst,shape,n=None):
    I=S.I; Ts=inst; I.steps=0; I.mon=None
    cn,F,Lp=SHAPES[shape] if shape<HBASE else HSHAPES[shape-HBASE]
    spec,sig=ALGS[nm]
    r=Run('%s<%s>'%(nm,','.join(Ts)),'%s %s..%s%s'%(cn,F if F=='end' else F[0],Lp if Lp=='end' else Lp[0],'' if n is None else ' middle %d'%n if 'm' in sig else ' second range of %d'%n if shape>=HBASE and 'I' in sig else ' n=%d'%n if 'I' not in sig else ' second range empty' if n==0 else ' second range not empty'))
    st=S.build({'a':CFG[cn]})
    segs=[T for T,_ in CFG[cn]]
    K,K2,KM=sym('K'),sym('K2'),sym('KM')
    def size(st,T): return S.w.stores(st,S.w.seg_of(st,'a',T)[1])[1][2]
    def pos(x): return (len(segs),ZERO) if x=='end' else (segs.index(x[0]),pv(x[1]))
    for x in(F,Lp):
        if x!='end': st=st.assume(pv(x[1])).assume(size(st,x[0])-pv(x[1])-1)
    if F!='end' and Lp!='end' and F[0]==Lp[0]: st=st.assume(pv(Lp[1])-pv(F[1]))
    first,last=pos(F),pos(Lp)
    kw={}; args=[]
    try:
        def it(x,const=True): return S.it_end(st,'a',const) if x=='end' else S.it_g(st,'a',x[0],pv(x[1]),const)
        f=S.w.entry[('algs',','.join(Ts),nm)]
        ranges=None
        for c,p in zip(expand(sig),f['ps']):
            cls=I.cls(p['t'])
            def rec(d):
                R=I.p.recs[cls]
                return Rec(cls,{(q['id'] if R['in'] else q['n']):d[q['n']] for q in R.get('fields',())})
            if c in 'aA': args.append(it(F,c=='a'))
            elif c in 'bB': args.append(it(Lp,c=='b'))
            elif c=='m':
                # the middle: an element of the first segment of the range, or its end
                if n is not None and shape>=HBASE:
                    ps=[]
                    if F!='end':
                        for T,z in CFG[cn][segs.index(F[0]):]:
                            for q in range(z if z!='fresh' else 0):
                                if T==F[0] and q<F[1]: continue
                                if Lp!='end' and (segs.index(T),q)>=(segs.index(Lp[0]),Lp[1]): continue
                                ps.append((T,q))
                    ps.append(Lp); M_=ps[min(n,len(ps)-1)]; mid=pos(M_)
                elif F=='end': M_=F; mid=first
                elif n==1 and F[0]!=(Lp if Lp=='end' else Lp[0]):
                    # in a later segment
                    T=segs[segs.index(F[0])+1] if Lp=='end' else Lp[0]
                    if Lp=='end' and T==F[0]: raise Skip('no later segment')
                    M_=(T,'KM'); st=st.assume(KM).assume(size(st,T)-KM-1); mid=pos(M_)
                    if Lp!='end': st=st.assume(K2-KM)
                elif n==2: M_=Lp; mid=last
                elif F[0]==(Lp if Lp=='end' else Lp[0]): M_=(F[0],'KM'); st=st.assume(KM-K).assume(K2-KM); mid=pos(M_)
                else: M_=(F[0],'KM'); st=st.assume(KM-K).assume(size(st,F[0])-KM-1); mid=pos(M_)
                ranges=[(mid,last),(first,mid)]
                args.append(it(M_))
            elif c=='i':
                if 'f2' not in kw: kw['f2']=sym('F2'); args.append(rec(dict(pos=sym('F2'))))
            elif c=='1': kw['f2']=sym('F2'); args.append(rec(dict(pos=sym('F2'))))
            elif c=='2':
                kw['l2']=sym('F2') if n==0 else sym('F2')+n if shape>=HBASE else sym('L2'); st=st if n==0 or shape>=HBASE else st.assume(sym('L2')-sym('F2')-1); args.append(rec(dict(pos=kw['l2'])))
            elif c=='o': args.append(rec(dict(pos=sym('P0'),id=ZERO)))
            elif c=='O': args.append(rec(dict(pos=sym('P1'),id=ONE)))
            elif c in 'vw': st=st.set(('u',c),tok('val',c,'va::val',0)); args.append(L(('u',c)))
            elif c=='g': st=st.set(('u',c),tok('gen')); args.append(L(('u',c)))
            elif c in 'nN':
                N=sym('N') if n is None else Aff.of(n); st=st.assume(N)
                kw['n']=N
                tot=ZERO
                if F!='end':
                    for T in segs[segs.index(F[0]):]: tot=tot+size(st,T)
                    tot=tot-pv(F[1])
                if nm not in('sample','sample_b'): st=st.assume(tot-N)
                if c=='N': st=st.assume(Aff.of(255)-N)
                args.append(N)
            elif c=='s': kw['n']=Aff.of(n); args.append(kw['n'])
            else: args.append(Rec(cls,{}))
    except Skip as e:
        r.undecided.append('setup: %s'%e); return [r]
    if st.dead(): return []
    const=not any(c in 'AB' for c in sig)
    m=Mon(S,st,'a',Ts,first,last,spec,const,ranges,**kw)
    I.mon=m; I.multi=True; I.unroll=12 if shape>=HBASE else 0; mx=I.maxsteps; I.maxsteps=BUDGET; I.loopviol=[]
    g=m.start(); g['w0']=sym('P0'); g['w1']=sym('P1')
    if 'n' in kw and spec.__class__ is CopyN: m.kw['n']=kw['n']+sym('P0')
    st=st.set(GH,g.pack())
    ut=I.userthrow; I.userthrow=False
    try:
        I.sinks=[[]]; I.stack=[]
        try: outs=I.call(f['id'],None,args,st,None)
        except Budget: r.undecided.append('budget'); outs=[]
        exc=I.sinks[0]
    finally: I.userthrow=ut; I.multi=False; I.unroll=0; I.maxsteps=mx; I.mon=None
    def viol(x):
        hit=False
        for e in flat(x.ev):
            if e[0]=='VIOL':
                hit=True; w=e[1]; pr=['C20','C19']
                if w.startswith('C19|'): w=w[4:]; pr=['C19']
                elif 'of the collection is handed over' not in w and 'misplaced' not in w: pr=['C20']
                r.bad(pr,w+' ('+str(e[2])[:200]+')')
        return hit
    for x in I.loopviol:
        if not x.dead(): viol(x)
    for x,e in exc:
        if not x.dead() and not x.top and not viol(x): r.bad(['C20'],'an exception is thrown: %s'%xname(e))
    for x,v in outs:
        if x.dead(): continue
        r.paths+=1
        if viol(x): continue
        if x.top: r.undecided.append(x.top[0]); continue
        try: spec.end(m,x,unpack(x.mem[GH]),v)
        except Bad as e: r.bad(['C20'],str(e))
        except Unk as e: r.undecided.append(str(e))
    return [r]
BUDGET=1500000
def variants(nm,sh=0):
    sig=ALGS[nm][1]
    if sh>=HBASE: return (0,1,2,3) if 'I' in sig else (0,1,2,3,4) if set('nNsm')&set(sig) else (None,)
    if 'm' in sig:
        cn,F,Lp=SHAPES[sh]
        if F=='end' : return (None,)
        if Lp!='end' and Lp[0]==F[0]: return (None,2)
        if F[0]==CFG[cn][-1][0] or cn=='mix' and Lp=='end': return (None,2)
        return (None,1,2)
    return (0,1,2,3) if 's' in sig else (0,1) if 'I' in sig else (None,)
def shapes(nm):
    h=[HBASE+i for i,x in enumerate(HSHAPES) if (i!=6 or 'perm' not in nm) and (x[2]=='end' or 'b' in ALGS[nm][1].lower())]
    if nm in HARD: return h
    return [i for i,x in enumerate(SHAPES) if x[2]=='end' or 'b' in ALGS[nm][1].lower()]+h
EXTRA=('adjacent_find_e','unique_copy_e','is_permutation_e','is_permutation_le','mismatch_le','search_e','find_end_e','find_if_m','adjacent_find_m','for_each_nm','mismatch_m','transform_m')
def expand(sig): return sig.replace('I','12')
def flat(ev):
    for e in ev:
        if e[0] in('rep','each'): yield from flat(e[2])
        elif e[0]=='alt':
            yield from flat(e[1]); yield from flat(e[2])
        else: yield e
HARD=('find_end','find_end_e','is_permutation','is_permutation_l','is_permutation_e','is_permutation_le')   # nesting beyond the loop invariants: given sizes
INST=((),('D1',),('D2','D3'),('D3','D1','D2'))
