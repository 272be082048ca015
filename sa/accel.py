"""Loop acceleration: candidate invariants read off one iteration, accepted only
when verified inductive; heads that are not instances become new candidates."""
from poly import Aff,Cons,sym,ZERO,ONE
from interp import *
from ir import walk

class NoGen(Exception): pass
def gen_value(a,b,t,S=None):
    """value v(t) with v(0)=a, v(1)=b; raise NoGen"""
    if a==b: return a
    if isinstance(a,Aff) and isinstance(b,Aff):
        d=b-a
        if d.isconst(): return a+sym(t).scale(d.c)
        if S is not None: return S()
        raise NoGen
    if isinstance(a,tuple) and isinstance(b,tuple) and a and b and a[0]==b[0]:
        if a[0]=='V':
            if a[1]!=b[1] or a[4]!=b[4]: raise NoGen
            return a[:2]+(gen_value(a[2],b[2],t),gen_value(a[3],b[3],t),a[4],a[5],gen_zones(a[6],b[6],t),gen_value(a[7],b[7],t))
        if a[0]=='R':
            if a[1]!=b[1]: raise NoGen
            da,db=dict(a[2]),dict(b[2])
            if set(da)!=set(db): raise NoGen
            return Rec(a[1],{k:gen_value(da[k],db[k],t,S) for k in da})
        if a[0]=='B':
            if a[1]!=b[1] or a[3]!=b[3]: raise NoGen
            return B(a[1],gen_value(a[2],b[2],t),a[3])
        if len(a)!=len(b): raise NoGen
        out=[]
        for x,y in zip(a,b):
            if isinstance(x,(tuple,Aff)) and isinstance(y,(tuple,Aff)): out.append(gen_value(x,y,t))
            elif x==y: out.append(x)
            else: raise NoGen
        return tuple(out)
    raise NoGen
def gen_zones(a,b,t):
    a=list(a);b=list(b)
    if len(b)==len(a)+1:
        # a zone appeared: of the form (1,e) -> (t,e...) only if a neighbour can absorb it later
        for i in range(len(b)):
            if b[:i]+b[i+1:]==a and b[i][0].isconst():
                # new zone with constant length per iteration; template unknown beyond first
                raise NoGen
        raise NoGen
    if len(a)!=len(b): raise NoGen
    out=[]
    for (la,ta),(lb,tb) in zip(a,b):
        ln=gen_value(la,lb,t)
        if ta==tb: tm=ta
        elif la==ONE and J not in vsyms(ta,set()) and J in vsyms(tb,set()) and vsub(tb,{J:ZERO})==ta: tm=tb
        elif lb==ONE and J not in vsyms(tb,set()) and J in vsyms(ta,set()):
            tm=gen_value(vsub(ta,{J:ZERO}),tb,t)
            # shrinking from the front
            raise NoGen
        else: tm=gen_value(ta,tb,t)
        out.append((ln,tm))
    return tuple(out)
def same(a,b,cons):
    """are the two values equal under cons?"""
    if a==b: return True
    if isinstance(a,bool) or isinstance(b,bool): return False
    if isinstance(a,Aff) and isinstance(b,Aff): return cons.entails_eq(a-b)
    if isinstance(a,tuple) and isinstance(b,tuple) and a and b and a[0]==b[0]:
        if a[0]=='V':
            if a[1]!=b[1] or a[4]!=b[4]: return False
            return same(a[2],b[2],cons) and same(a[3],b[3],cons) and same_zones(a[6],b[6],cons) and same(a[7],b[7],cons)
        if len(a)!=len(b): return False
        return all(same(x,y,cons) if isinstance(x,(tuple,Aff)) and isinstance(y,(tuple,Aff)) else x==y for x,y in zip(a,b))
    return False
def same_zones(a,b,cons):
    a=list(znorm(a,cons)); b=list(znorm(b,cons))
    i=0
    while a and b:
        la,ta=a[0]; lb,tb=b[0]
        # common length
        if cons.entails_eq(la-lb): m=la
        elif cons.entails(la-lb): m=lb
        elif cons.entails(lb-la): m=la
        else: return False
        if not cons.entails_eq(m):
            if m==ONE or cons.entails_eq(m-1):
                if not same(vsub(ta,{J:ZERO}),vsub(tb,{J:ZERO}),cons): return False
            elif not same(ta,tb,cons): return False
        a[0]=(la-m,vsub(ta,{J:sym(J)+m})); b[0]=(lb-m,vsub(tb,{J:sym(J)+m}))
        if cons.entails_eq(a[0][0]): a.pop(0)
        if cons.entails_eq(b[0][0]): b.pop(0)
    return not a and not b or all(cons.entails_eq(l) for l,_ in a+b)

def local_vars(n):
    ids=set()
    def cb(x):
        if x.get('k')=='Decl':
            for v in x['v']: ids.add(v['id'])
        if 'cv' in x and isinstance(x['cv'],dict): ids.add(x['cv']['id'])
    walk(n.get('b'),cb); walk(n.get('n') or {},cb); walk(n.get('c') or {},cb)
    return ids
def prune(st,fr,ids,keep):
    dead=[]
    for o in st.mem:
        if isinstance(o,tuple) and o[0]=='v' and o[1]==fr and o[2] in ids: dead.append(o)
        elif isinstance(o,tuple) and o[0]=='t' and o not in keep: dead.append(o)
    return st.rm(dead) if dead else st
def instance(x,g,t,I):
    """x is an instance of g at t+1"""
    m={t:sym(t)+1}
    if set(x.mem)!=set(g.mem): return False
    for k in g.mem:
        if not same(x.mem[k],vsub(g.mem[k],m),x.cons): return False
    if not same(x.ds,vsub(g.ds,m),x.cons): return False
    return True
def accelerate(I,n,st,fr,f):
    I.accels=getattr(I,'accels',0)+1
    ids=local_vars(n)
    keep=set(st.mem)
    outs=[]
    work=[(prune(st,fr,ids,keep),0)]
    done=[]
    rounds=0
    while work:
        h,peel=work.pop(0)
        if h.dead(): continue
        if h.top: outs.append(('n',h)); continue
        rounds+=1
        if peel>I.max_peel or rounds>I.max_rounds:
            outs.append(('n',h.mktop('loop:'+I.where()))); continue
        # one ordinary iteration from h
        lazy=I.lazy; I.lazy=True
        I.sinks.append([])
        en,le=I.guard(n,h,fr,f)
        heads=[];exits=[]
        for x in en:
            hh,ee=I.body_once(n,x,fr,f)
            heads+=hh; exits+=ee
        exc=I.sinks.pop()
        I.lazy=lazy
        heads=[prune(x,fr,ids,keep) for x in heads if not x.dead()]
        G=None
        for g in heads:
            if g.top: continue
            G=try_gen(I,n,h,g,fr,f,ids,keep)
            if G is not None: break
        if G is None:
            # peel: keep this iteration's exits, continue from its heads
            I.sinks[-1]+=exc; outs+=exits; outs+=[('n',x) for x in le]
            work+=[(x,peel+1) for x in heads]
            # the branches in which capacities run out
            if not lazy:
                a,b,c=grow_heads(I,n,h,fr,f,ids,keep,heads)
                I.sinks[-1]+=c; outs+=b
                work+=[(x,peel+1) for x in a]
            continue
        gl,gx,gexc,esc,gst,t=G
        outs+=[('n',x) for x in gl]+gx
        I.sinks[-1]+=gexc
        work+=[(x,0 if not lazy else peel) for x in esc]
        if not lazy and peel<=4:
            a,b,c=grow_heads(I,n,gst,fr,f,ids,keep,None)
            I.sinks[-1]+=c; outs+=b
            work+=[(x,4) for x in a]
    return outs
def caps(st,I): return {b:v[1][3] for b,v in I.vecs(st).items()}
def grow_heads(I,n,h,fr,f,ids,keep,known):
    """iteration from h in which some vector is reallocated"""
    lazy=I.lazy; I.lazy=False
    before=set(I.vecs(h))
    I.sinks.append([])
    en,le=I.guard(n,h,fr,f)
    heads=[];exits=[]
    for x in en:
        hh,ee=I.body_once(n,x,fr,f); heads+=hh; exits+=ee
    exc=I.sinks.pop(); I.lazy=lazy
    def grown(x): return set(I.vecs(x))!=before
    heads=[prune(x,fr,ids,keep) for x in heads if not x.dead() and not x.top and grown(x)]
    return heads,[e for e in exits if grown(e[1])],[e for e in exc if True]
def try_gen(I,n,h,g,fr,f,ids,keep):
    I.n+=1
    t='t%d'%I.n
    try:
        if set(h.mem)!=set(g.mem): raise NoGen
        mem={}
        for k in h.mem:
            S=(lambda:I.fresh('h')) if isinstance(k,tuple) and k[0]=='v' and k[1]==fr else None
            mem[k]=gen_value(h.mem[k],g.mem[k],t,S)
        ds=gen_value(h.ds,g.ds,t) if h.ds!=g.ds else h.ds
    except NoGen: return None
    if mem==h.mem: return None
    facts=tuple(x for x in h.facts if x in g.facts)
    base=h.cons.add(sym(t))
    cand=None
    lazy=I.lazy
    for rnd in range(6):
        cons=base
        for c in cand or (): cons=cons.add(c)
        gst=St(mem,cons,(),ds,facts,())
        if gst.dead(): return None
        I.lazy=True
        I.sinks.append([])
        en,le=I.guard(n,gst,fr,f)
        heads=[];exits=[]
        for x in en:
            hh,ee=I.body_once(n,x,fr,f); heads+=hh; exits+=ee
        exc=I.sinks.pop()
        I.lazy=lazy
        heads=[prune(x,fr,ids,keep) for x in heads if not x.dead()]
        inst=[];esc=[]
        for x in heads:
            if x.top: esc.append(x); continue
            (inst if instance(x,gst,t,I) else esc).append(x)
        if not inst: return None
        if cand is None:
            # candidate constraints: what the previous iteration established
            cand=set()
            known={s for a in base.s for s in a.syms()}|{t}|vsyms(tuple(mem.values()),set())
            for x in inst:
                for c in x.cons.s-cons.s:
                    if not c.syms()<=known: continue
                    c1=c.subst({t:sym(t)-1})
                    if h.cons.entails(c1.subst({t:ZERO})): cand.add(c1)
            if cand: continue
            break
        bad={c for c in cand if not all(x.cons.entails(c.subst({t:sym(t)+1})) for x in inst)}
        if not bad: break
        cand-=bad
    else: return None
    # events of one iteration
    d=None
    for x in inst:
        if d is None: d=x.ev
        elif d!=x.ev: d=merge_ev(d,x.ev)
    pre=h.ev+((('rep',sym(t),vsub(d,{t:sym(J)})),) if d else ())
    # final exploration, with the events so far
    gst=gst.cp(ev=pre)
    I.lazy=True
    I.sinks.append([])
    en,le=I.guard(n,gst,fr,f)
    heads=[];exits=[]
    for x in en:
        hh,ee=I.body_once(n,x,fr,f); heads+=hh; exits+=ee
    exc=I.sinks.pop()
    I.lazy=lazy
    esc=[]
    for x in heads:
        if x.dead(): continue
        x=prune(x,fr,ids,keep)
        if x.top or not instance(x,gst,t,I): esc.append(x)
    return le,exits,exc,esc,gst,t
def merge_ev(a,b):
    return (('alt',a,b),)
