"""Exception-effect analysis over the compiler's intermediate representation.

The witness programs, in which every user operation is opaque and may throw
unless its type promises otherwise, are lowered to optimised LLVM IR (nothing is
run).  A call from within a noexcept function that may throw unwinds to a
terminate handler; every such call is resolved here and reported when what it
reaches (transitively, through function pointers as well) may throw."""
import re,subprocess,os,collections
RUNTIME_NT=re.compile(r'__cxa_end_catch|__cxa_begin_catch|__cxa_get_exception|_ZSt11_Hash_bytes|__cxa_free_exception|__cxa_guard|_ZSt9terminatev|__clang_call_terminate|llvm\.|_ZdlPv|_ZdaPv|mem(cpy|move|set|cmp)|strcmp|bcmp|_Unwind_Resume|__dynamic_cast|_ZNKSt10_Hash_impl|_ZNKSt8__detail20_Prime_rehash_policy')
LBL=r'(?:[\w.$-]+|"[^"]+")'
class Mod:
    def __init__(s,path):
        txt=open(path).read().split('\n')
        s.md={}; s.fns={}; s.decl={}; s.attrs={}
        s.alias={}
        cur=None
        for l in txt:
            if l.startswith('define ') or l.startswith('declare '):
                m=re.search(r'@("[^"]+"|[\w.$-]+)\(',l)
                if not m: continue
                n=m.group(1).strip('"')
                nt='nounwind' in l.split(')')[-1] or bool(re.search(r'\)[^{]*\bnounwind\b',l))
                ag=re.findall(r'#(\d+)',l[l.rfind(')'):])
                if l.startswith('define '): s.fns[n]=dict(nt=nt,ag=ag,lines=[],sig=l,sp=(re.search(r'!dbg (!\d+)',l) or [None,None])[1]); cur=n
                else: s.decl[n]=dict(nt=nt,ag=ag)
            elif l=='}': cur=None
            elif cur: s.fns[cur]['lines'].append(l)
            elif l.startswith('!'):
                m=re.match(r'(!\d+) = (?:distinct )?(.*)',l)
                if m: s.md[m.group(1)]=m.group(2)
            elif l.startswith('attributes '):
                m=re.match(r'attributes #(\d+) = \{(.*)\}',l)
                if m: s.attrs[m.group(1)]=m.group(2)
            elif l.startswith('@'):
                m=re.match(r'@("[^"]+"|[\w.$-]+) = .*\balias\b.*@("[^"]+"|[\w.$-]+)',l)
                if m: s.alias[m.group(1).strip('"')]=m.group(2).strip('"')
        for d in list(s.fns.values())+list(s.decl.values()):
            if any(re.search(r'\bnounwind\b',s.attrs.get(a,'')) for a in d['ag']): d['nt']=True
        # address-taken functions by parameter count
        s.taken=set()
        names='|'.join([])
        for n,d in s.fns.items():
            for l in d['lines']:
                if 'store ptr @' in l or 'select' in l or 'phi ptr' in l or 'insertvalue' in l:
                    for m in re.findall(r'@("[^"]+"|[\w.$-]+)',l): s.taken.add(m.strip('"'))
                m=re.search(r'(?:call|invoke) .*?@("[^"]+"|[\w.$-]+)\((.*)\)',l)
                if m:
                    for x in re.findall(r'@("[^"]+"|[\w.$-]+)',m.group(2)): s.taken.add(x.strip('"'))
        s.code_taken=set(s.taken)
        s.globals_taken(txt)
        s.calls={n:s.scan(n,d) for n,d in s.fns.items()}
        s.may=s.infer()
    def globals_taken(s,txt):
        for l in txt:
            if l.startswith('@') and ' constant ' in l or l.startswith('@') and ' global ' in l:
                for m in re.findall(r'@("[^"]+"|[\w.$-]+)',l[1:]): s.taken.add(m.strip('"'))
    def callnt(s,l):
        t=l[l.rfind(')'):]
        if re.search(r'\bnounwind\b',t): return True
        return any(re.search(r'\bnounwind\b',s.attrs.get(a,'')) for a in re.findall(r'#(\d+)',t))
    def target(s,l):
        """-> (name or None for indirect, nargs)"""
        m=re.search(r'(?:call|invoke)\s(.*)',l)
        r=m.group(1)
        m=re.search(r'(@(?:"[^"]+"|[\w.$-]+)|%[\w.$-]+|asm)\s*\(',r)
        if not m: return None,-1
        x=m.group(1)
        args=r[m.end():]
        d=1;k=0;n=0;ne=False
        for ch in args:
            if ch in '([{<': d+=1
            elif ch in ')]}>':
                d-=1
                if d==0: break
            elif ch==',' and d==1: n+=1
            if not ch.isspace(): ne=True
        na=n+1 if ne else 0
        if x[0]=='@': return x[1:].strip('"'),na
        if x=='asm': return 'llvm.asm',na
        return None,na
    def blocks(s,lines):
        bl={};lab='%entry';bl[lab]=[]
        for l in lines:
            m=re.match(r'^(%s):'%LBL,l)
            if m: lab=m.group(1).strip('"'); bl[lab]=[]
            elif l.strip(): bl[lab].append(l)
        return bl
    def scan(s,n,d):
        bl=s.blocks(d['lines'])
        def succ(b):
            out=[]
            for l in bl.get(b,())[-4:]:
                if re.match(r'\s*(br|switch|invoke|to label|indirectbr)',l) or 'label %' in l: out+=[x.strip('"') for x in re.findall(r'label %('+LBL+')',re.sub(r'unwind label %'+LBL,'',l))]
            return out
        memo={}
        def kind(b):
            """what becomes of an exception entering landing block b: 'term','caught','resume'"""
            seen=set();todo=[b];res=set()
            while todo:
                x=todo.pop()
                if x in seen: continue
                seen.add(x)
                stop=False
                for l in bl.get(x,()):
                    if '__clang_call_terminate' in l: res.add('term'); stop=True; break
                    if '__cxa_begin_catch' in l: res.add('caught'); stop=True; break
                    if re.match(r'\s*resume ',l): res.add('resume'); stop=True; break
                if not stop: todo+=succ(x)
            return res
        out=[]
        for b,ls in bl.items():
            for j,l in enumerate(ls):
                if ' call ' in l or l.strip().startswith('call ') or 'invoke ' in l:
                    if not re.search(r'\b(call|invoke)\b',l): continue
                    full=l
                    if 'invoke ' in l and j+1<len(ls) and 'unwind label' in ls[j+1]: full=l+' '+ls[j+1]
                    if s.callnt(l): continue
                    t,na=s.target(l)
                    u=re.search(r'unwind label %('+LBL+')',full)
                    k={'up'}
                    if u:
                        lb=u.group(1).strip('"')
                        if lb not in memo: memo[lb]=kind(lb)
                        k=memo[lb]
                    dbg=re.search(r'!dbg (!\d+)',full)
                    out.append((t,na,frozenset(k),dbg.group(1) if dbg else None))
        return out
    def resolve(s,t):
        return s.alias.get(t,t)
    def throws(s,t,na,may,dbg=None):
        if t is not None:
            t=s.resolve(t)
            if RUNTIME_NT.match(t): return False
            if t in s.fns: return (not s.fns[t]['nt']) and t in may
            d=s.decl.get(t)
            return not(d and d['nt'])
        src=s.taken
        if dbg:
            fl=s.chain(dbg)[0][1]
            if 'boost/smart_ptr' in fl: return False # reference counts of Boost.TypeErasure bindings
            if fl.endswith('unique_ptr.h'): src=s.code_taken # deleters, never found through virtual tables
        c=[f for f in src if f in s.fns and s.nparams(f)==na]
        ext=[f for f in s.taken if f in s.decl and not s.decl[f]['nt'] and not RUNTIME_NT.match(f)]
        if not c: return True
        return any((not s.fns[f]['nt']) and f in may for f in c)
    def nparams(s,f):
        d=s.fns[f]
        if 'np' not in d:
            sg=d['sig']; m=re.search(r'@(?:"[^"]+"|[\w.$-]+)\(',sg); r=sg[m.end():]
            dd=1;n=0;ne=False
            for ch in r:
                if ch in '([{<': dd+=1
                elif ch in ')]}>':
                    dd-=1
                    if dd==0: break
                elif ch==',' and dd==1: n+=1
                if not ch.isspace(): ne=True
            d['np']=n+1 if ne else 0
        return d['np']
    def infer(s):
        may=set(); ch=True
        while ch:
            ch=False
            for n,d in s.fns.items():
                if n in may or d['nt']: continue
                for t,na,k,dbg in s.calls[n]:
                    if ('up' in k or 'resume' in k) and s.throws(t,na,may,dbg): may.add(n); ch=True; break
        return may
    def chain(s,d):
        out=[]
        while d:
            t=s.md.get(d,'')
            m=re.search(r'line: (\d+)',t); sc=(re.search(r'scope: (!\d+)',t) or [None,None])[1]
            while sc and 'DISubprogram' not in s.md.get(sc,''):
                x=re.search(r'scope: (!\d+)',s.md[sc]); sc=x.group(1) if x else None
            name=fl='?'
            if sc:
                z=re.search(r'name: "([^"]*)"',s.md[sc]); name=z.group(1) if z else '?'
                f=re.search(r'file: (!\d+)',s.md[sc])
                if f: fl=(re.search(r'filename: "([^"]*)"',s.md.get(f.group(1),'')) or [None,'?'])[1]
            out.append((name,fl,m.group(1) if m else '?'))
            i=re.search(r'inlinedAt: (!\d+)',t); d=i.group(1) if i else None
        return out
    def report(s):
        """[(callee,chain)] of calls that may throw into a terminate handler"""
        out=[];sites=0
        for n in s.fns:
            for t,na,k,dbg in s.calls[n]:
                if 'term' not in k: continue
                sites+=1
                if s.throws(t,na,s.may,dbg): out.append((t or 'a call through a pointer or virtual function',n,s.chain(dbg)))
        return out,sites
def demangle(names):
    r=subprocess.run(['c++filt'],input='\n'.join(names),text=True,capture_output=True)
    return r.stdout.split('\n') if r.returncode==0 else names
def short(x):
    x=re.sub(r'boost::poly_collection::(detail|common_impl)::','',x)
    return re.sub(r'<.*>','<..>',x)[:120]
def analyse(repo,tmp,units):
    """units: [(label,source,defs)] -> findings, stats"""
    ps=[]
    for i,(lab,src,defs) in enumerate(units):
        o=os.path.join(tmp,'ne%d.ll'%i)
        ps.append((lab,o,subprocess.Popen(['clang++','-std=c++17','-O2','-g1','-S','-emit-llvm','-DNDEBUG','-w','-I'+repo+'/include']+defs+[src,'-o',o],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)))
    finds={};sites=fn=0;err=[]
    for lab,o,p in ps:
        log=p.communicate()[0]
        if p.returncode: err.append((lab,log[-800:])); continue
        m=Mod(o); os.unlink(o)
        r,n=m.report(); sites+=n; fn+=len(m.fns)
        dem=demangle([x[0] for x in r]+[x[1] for x in r])
        for i,(t,f,ch) in enumerate(r):
            lib=[c for c in ch if '/poly_collection/' in c[1]]
            if not lib and 'poly_collection' not in dem[len(r)+i]: continue
            a=lib[0] if lib else ('?','?','?')
            where=' <- '.join('%s (%s:%s)'%(re.sub(r'<.*','',c[0]),c[1].split('/')[-1],c[2]) for c in lib[:4]) or short(dem[len(r)+i])
            key='%s may throw within a noexcept function: %s'%(short(dem[i]),where)
            finds.setdefault(key,lab)
    return finds,dict(sites=sites,functions=fn,errors=err)
if __name__=='__main__':
    import sys
    for f in sys.argv[1:]:
        m=Mod(f); r,n=m.report(); print(f,n,len(r),len(m.fns),len(m.may))
        dem=demangle([x[0] for x in r])
        c=collections.Counter((short(d),' < '.join('%s@%s:%s'%(re.sub(r'<.*','',c[0]),c[1].split('/')[-1],c[2]) for c in x[2][:5])) for d,x in zip(dem,r))
        for k,v in c.most_common(20): print('  ',v,k)
