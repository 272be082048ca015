"""Loops whose iterations end in several heads of the same shape (one per outcome of
an opaque call): one counter per head.  The candidate invariant is
  leaf = leaf at entry + sum of (constant change of that head)*(counter of that head)
with the constraints each iteration re-establishes; accepted only when inductive.
A head of another shape starts a generalisation of its own."""
from poly import Aff,sym,ZERO,ONE
from interp import *
from accel import local_vars,prune
DBG=0
LEAF=('*',)
def flatten(v,out):
    """skeleton of v; its affine leaves are appended to out"""
    if isinstance(v,Aff): out.append(v); return LEAF
    if isinstance(v,tuple): return tuple(flatten(x,out) if isinstance(x,(tuple,Aff)) else x for x in v)
    return v
def diff(a,b):
    """{key: [leaf changes]} from state a to b, or None when the shapes differ"""
    if a.mem.keys()!=b.mem.keys() or a.ds!=b.ds: return None
    out={}
    for k in a.mem:
        x,y=a.mem[k],b.mem[k]
        if x is y or x==y: continue
        lx=[];ly=[]
        if flatten(x,lx)!=flatten(y,ly): return None
        d=[q-p for p,q in zip(lx,ly)]
        if not all(e.isconst() for e in d): return None
        out[k]=tuple(e.c for e in d)
    return out
def advance(v,adds):
    """v with its leaves increased"""
    it=iter(adds)
    def go(v):
        if isinstance(v,Aff): return v+next(it)
        if isinstance(v,tuple): return tuple(go(x) if isinstance(x,(tuple,Aff)) else x for x in v)
        return v
    return go(v)
def template(h,params):
    mem=dict(h.mem)
    for k in {k for _,d in params for k in d}:
        n=next(len(d[k]) for _,d in params if k in d)
        adds=[ZERO]*n
        for s,d in params:
            if k in d: adds=[a+sym(s).scale(c) for a,c in zip(adds,d[k])]
        mem[k]=advance(h.mem[k],adds)
    return mem
def violated(st):
    def go(ev):
        for e in ev:
            if e[0]=='VIOL': return True
            if e[0] in('rep','each') and go(e[2]) or e[0]=='alt' and(go(e[1]) or go(e[2])): return True
        return False
    return go(st.ev)
def equal_state(x,mem,ds):
    if x.mem.keys()!=mem.keys() or x.ds!=ds: return False
    for k in mem:
        a,b=x.mem[k],mem[k]
        if a is b or a==b: continue
        la=[];lb=[]
        if flatten(a,la)!=flatten(b,lb): return False
        if not all(p==q or x.cons.entails_eq(p-q) for p,q in zip(la,lb)): return False
    return True
def matches(G,x):
    """is x one of the states G stands for?"""
    gst,params=G
    if x.mem.keys()!=gst.mem.keys() or x.ds!=gst.ds: return False
    if not set(gst.facts)<=set(x.facts): return False
    ren={p:sym('~'+p) for p in params}; todo=['~'+p for p in params]
    pairs=[]
    for k in gst.mem:
        a,b=x.mem[k],gst.mem[k]
        if a is b or a==b:
            if not params or not vsyms(b,set())&set(params): continue
        la=[];lb=[]
        if flatten(a,la)!=flatten(b,lb): return False
        pairs+=[(q.subst(ren),p) for p,q in zip(la,lb)]
    sol={}
    ch=True
    while todo:
        if not ch:
            # underdetermined: any solution will do
            w={v:max([abs(q.subst(sol).coef(v)) for q,_ in pairs]+[0]) for v in todo}
            v=max(todo,key=lambda v:w[v]); sol[v]=ZERO; todo.remove(v)
        ch=False
        for q,p in pairs:
            q=q.subst(sol); u=[(v,c) for v,c in q.t if v in todo]
            if len(u)==1:
                v,c=u[0]
                e=(p-(q-Aff(0,((v,c),)))).divexact(c)
                if e is not None: sol[v]=e; todo.remove(v); ch=True
    for v in todo: sol[v]=ZERO
    for q,p in pairs:
        d=q.subst(sol)-p
        if d!=ZERO and not x.cons.entails_eq(d): return False
    for c in gst.cons.s:
        c=c.subst(ren).subst(sol)
        if c in x.cons.s: continue
        if not x.cons.entails(c): return False
    return True
def own(G,x):
    """the direct case: one more iteration"""
    gst,params=G
    for p in params:
        if not p in {s for c in x.cons.s for s in c.syms()}: return False
    for p in params:
        m={p:sym(p)+1}
        if equal_state(x,{k:vsub(v,m) for k,v in gst.mem.items()},gst.ds):
            r=[c for c in gst.cons.s if not x.cons.entails(c.subst(m))]
            if r and DBG: print('OWN',r,x.cons)
            return not r
    return False
def explore(I,n,gst,fr,f,ids,keep):
    I.sinks.append([])
    en,le=I.guard(n,gst,fr,f)
    heads=[];exits=[]
    for x in en:
        hh,ee=I.body_once(n,x,fr,f); heads+=hh; exits+=ee
    exc=I.sinks.pop()
    known={s for c in gst.cons.s for s in c.syms()}
    return [forget(prune(x,fr,ids,keep),known) for x in heads if not x.dead()],exits,le,exc
def forget(x,known):
    """eliminate symbols introduced by the iteration that nothing mentions any more"""
    al={s for c in x.cons.s for s in c.syms()}
    new=al-known
    if new: new-=vsyms((tuple(x.mem.values()),x.facts),set())
    return x.cp(cons=x.cons.project(al-new)) if new else x
def generalise(I,n,h,fr,f,ids,keep):
    params=[]; cand=None; inst=[]
    base=h.cp(ev=())
    for rnd in range(14):
        cons=h.cons
        for s,_ in params: cons=cons.add(sym(s))
        for c in cand or (): cons=cons.add(c)
        gst=St(template(h,params),cons,h.ev,h.ds,h.facts,())
        res=explore(I,n,gst,fr,f,ids,keep); heads=res[0]
        tops=any(x.top or violated(x) for x in heads) or any(o[1].top for o in res[1])
        if tops and I.mon is not None and params:
            # the monitor may need the invariant being looked for
            old=I.mon.probe; I.mon.probe=True
            try: heads=explore(I,n,gst,fr,f,ids,keep)[0]
            finally: I.mon.probe=old
        inst=[]; new=False
        for x in heads:
            if x.top or violated(x): continue
            for s,_ in params:
                if equal_state(x,{k:vsub(v,{s:sym(s)+1}) for k,v in gst.mem.items()},gst.ds): inst.append((x,s)); break
            else:
                if equal_state(x,gst.mem,gst.ds): inst.append((x,None)); continue
                d=diff(gst,x)
                if d and len(params)<5 and not new:
                    I.n+=1; params.append(('s#%d'%I.n,d)); new=True
        if new: cand=None; continue
        if not params: return gst,[],res
        if cand is None:
            cand=set(); ps={s for s,_ in params}
            known={s for a in h.cons.s for s in a.syms()}|ps|vsyms(tuple(gst.mem.values()),set())
            z={s:ZERO for s in ps}
            for x,s in inst:
                for c in x.cons.s-gst.cons.s:
                    if not c.syms()<=known: continue
                    c1=c.subst({s:sym(s)-1}) if s else c
                    if h.cons.entails(c1.subst(z)): cand.add(c1)
            if cand: continue
            break
        bad={c for c in cand for x,s in inst if not x.cons.entails(c.subst({s:sym(s)+1}) if s else c)}
        if not bad: break
        cand-=bad
    else: return None
    # facts learnt by an iteration are not carried over
    # exact: every condition an iteration passes is kept, and later ones imply earlier ones
    ps=[s for s,_ in params]
    exact=not tops and {s for _,s in inst}>=set(ps)
    for x,s in inst:
        if s is None: continue
        for c in x.cons.s-gst.cons.s:
            if any(c.coef(p)>0 for p in ps) or not gst.cons.entails(c.subst({s:sym(s)-1})): exact=False
        if set(x.facts)-set(gst.facts): exact=False
    if exact:
        m={s:sym('x'+s[1:]) for s in ps}
        gst=gst.subst(m); ps=['x'+s[1:] for s in ps]
    return gst,ps,None
def accelerate_multi(I,n,st,fr,f):
    ids=local_vars(n); keep=set(st.mem)
    outs=[]; work=[prune(st,fr,ids,keep)]; gens=[]; rounds=0
    while work:
        h=work.pop(0)
        if h.dead(): continue
        if h.top: outs.append(('n',h)); continue
        if violated(h): outs.append(('n',h.mktop('after a violation'))); continue
        if any(own(G,h) or matches(G,h) for G in gens): continue
        if DBG and gens: print('NOMATCH',[ (k,str(a)[:150],str(h.mem.get(k))[:150]) for k,a in gens[-1][0].mem.items() if h.mem.get(k)!=a],[c for c in gens[-1][0].cons.s if c not in h.cons.s])
        rounds+=1
        G=generalise(I,n,h,fr,f,ids,keep) if rounds<=120 else None
        if G is None: outs.append(('n',h.mktop('loop:'+I.where()))); continue
        gst,ps,res=G
        heads,exits,le,exc=res or explore(I,n,gst,fr,f,ids,keep)
        outs+=[('n',x) for x in le]+exits
        I.sinks[-1]+=exc
        gens.append((gst,ps))
        work+=heads
    return outs
