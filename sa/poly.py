"""Numeric abstract domain: affine expressions over symbols and conjunctions of
affine inequalities (convex polyhedra, decided by Fourier-Motzkin elimination
with integer tightening).  No external solver."""
from fractions import Fraction
from functools import lru_cache
from math import gcd

class Aff:
    __slots__=('c','t','_h')
    def __init__(s,c=0,t=()):
        s.c=c; s.t=t; s._h=None   # t: sorted tuple of (sym,coef), coef!=0
    def __hash__(s):
        if s._h is None: s._h=hash((s.c,s.t))
        return s._h
    def __eq__(s,o):
        if isinstance(o,int): return s.c==o and not s.t
        return isinstance(o,Aff) and s.c==o.c and s.t==o.t
    def __ne__(s,o): return not s==o
    @staticmethod
    def of(x): return x if isinstance(x,Aff) else Aff(x)
    def isconst(s): return not s.t
    def add(s,o,k=1):
        o=Aff.of(o)
        if not o.t: return Aff(s.c+k*o.c,s.t)
        d=dict(s.t)
        for v,c in o.t:
            n=d.get(v,0)+k*c
            if n: d[v]=n
            else: d.pop(v,None)
        return Aff(s.c+k*o.c,tuple(sorted(d.items())))
    def __add__(s,o): return s.add(o)
    __radd__=__add__
    def __sub__(s,o): return s.add(o,-1)
    def __rsub__(s,o): return Aff.of(o).add(s,-1)
    def __neg__(s): return s.scale(-1)
    def scale(s,k):
        if k==0: return ZERO
        return Aff(s.c*k,tuple((v,c*k) for v,c in s.t))
    def __mul__(s,o):
        if isinstance(o,Aff):
            if o.isconst(): return s.scale(o.c)
            if s.isconst(): return o.scale(s.c)
            return None
        return s.scale(o)
    __rmul__=__mul__
    def divexact(s,k):
        """exact division by the constant k, or None"""
        if k==0: return None
        if s.c%k or any(c%k for _,c in s.t): return None
        return Aff(s.c//k,tuple((v,c//k) for v,c in s.t))
    def syms(s): return {v for v,_ in s.t}
    def coef(s,v):
        for w,c in s.t:
            if w==v: return c
        return 0
    def subst(s,m):
        if not s.t or not any(v in m for v,_ in s.t): return s
        r=Aff(s.c)
        for v,c in s.t:
            if v in m: r=r+Aff.of(m[v]).scale(c)
            else: r=r+Aff(0,((v,c),))
        return r
    def __repr__(s):
        out=''
        for v,c in s.t:
            out+=('+' if c>0 else '-')+('' if abs(c)==1 else str(abs(c))+'*')+str(v)
        if s.c or not out: out+=('+' if s.c>=0 and out else '')+str(s.c)
        return out.lstrip('+')
ZERO=Aff(0); ONE=Aff(1)
def sym(n): return Aff(0,((n,1),))

def _norm(a):
    """normalise a>=0 with integer tightening"""
    if not a.t: return a
    g=0
    for _,c in a.t: g=gcd(g,abs(c))
    if g>1:
        return Aff(a.c//g,tuple((v,c//g) for v,c in a.t)) # floor division tightens
    return a

@lru_cache(maxsize=200000)
def _infeasible(cons):
    cs=set()
    for a in cons:
        a=_norm(a)
        if not a.t:
            if a.c<0: return True
            continue
        cs.add(a)
    while True:
        # keep only tightest per direction
        best={}
        for a in cs:
            if a.t in best:
                if a.c<best[a.t]: best[a.t]=a.c
            else: best[a.t]=a.c
        cs=[Aff(c,t) for t,c in best.items()]
        # direct contradictions
        for a in cs:
            nt=tuple((v,-c) for v,c in a.t)
            if nt in best and best[nt]+a.c<0: return True
        vs={}
        for a in cs:
            for v,c in a.t:
                p=vs.setdefault(v,[0,0]); p[0 if c>0 else 1]+=1
        if not vs: return False
        v=min(vs,key=lambda x:vs[x][0]*vs[x][1]-vs[x][0]-vs[x][1])
        pos=[a for a in cs if a.coef(v)>0]; neg=[a for a in cs if a.coef(v)<0]
        rest=[a for a in cs if a.coef(v)==0]
        new=set(rest)
        if len(pos)*len(neg)>4000: return False
        for p in pos:
            cp=p.coef(v)
            for n in neg:
                cn=-n.coef(v)
                r=_norm(p.scale(cn)+n.scale(cp))
                if not r.t:
                    if r.c<0: return True
                else: new.add(r)
        cs=new
        if not cs: return False

class Cons:
    """conjunction of  a>=0"""
    __slots__=('s','_inf')
    def __init__(s,items=frozenset()): s.s=items; s._inf=None
    def add(s,a):
        a=_norm(Aff.of(a))
        if not a.t and a.c>=0: return s
        if a in s.s: return s
        return Cons(s.s|{a})
    def relevant(s,syms):
        syms=set(syms); out=[]; left=list(s.s); ch=True
        while ch:
            ch=False; rest=[]
            for a in left:
                vs=a.syms()
                if not vs or vs&syms: out.append(a); syms|=vs; ch=True
                else: rest.append(a)
            left=rest
        return out
    def infeasible(s):
        if s._inf is None: s._inf=_infeasible(frozenset(s.s))
        return s._inf
    def entails(s,a):
        """a>=0 ?"""
        a=Aff.of(a)
        if not a.t: return a.c>=0
        neg=(-a)-1
        return _infeasible(frozenset(s.relevant(a.syms())+[neg]))
    def entails_eq(s,a):
        a=Aff.of(a)
        if not a.t: return a.c==0
        return s.entails(a) and s.entails(-a)
    def possible(s,a):
        """is a>=0 consistent?"""
        a=Aff.of(a)
        if not a.t: return a.c>=0
        return not _infeasible(frozenset(s.relevant(a.syms())+[a]))
    def subst(s,m):
        return Cons(frozenset(_norm(a.subst(m)) for a in s.s))
    def project(s,keep):
        """eliminate all symbols not in keep"""
        cs=set(s.s)
        vs=set().union(*[a.syms() for a in cs]) if cs else set()
        for v in vs-set(keep):
            pos=[a for a in cs if a.coef(v)>0]; neg=[a for a in cs if a.coef(v)<0]
            new={a for a in cs if a.coef(v)==0}
            if len(pos)*len(neg)<400:
                for p in pos:
                    for n in neg: new.add(_norm(p.scale(-n.coef(v))+n.scale(p.coef(v))))
            cs=new
        return Cons(frozenset(a for a in cs if a.t or a.c<0))
    def __repr__(s): return '{'+', '.join(str(a)+'>=0' for a in sorted(s.s,key=str))+'}'
