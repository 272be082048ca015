#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property from /repo's current source.  Nothing of the library is run:
the compiler front end resolves the witness program, sa/ interprets the resolved
functions abstractly, and every outcome is compared with the effect the property
demands."""
import sys,os,json,time,subprocess,signal,shutil,tempfile,multiprocessing as mp,traceback,re
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(HERE,'sa'))
REPO=os.environ.get('VERIF_REPO','/repo')
CLANGINC='/usr/lib/llvm-18/lib/clang/18/include'
def build_extractor():
    out=os.path.join(HERE,'build','extract'); src=os.path.join(HERE,'extract','extract.cpp')
    if os.path.exists(out) and os.path.getmtime(out)>=os.path.getmtime(src): return out
    os.makedirs(os.path.dirname(out),exist_ok=True)
    tmp=out+'.%d'%os.getpid()
    subprocess.check_call(['g++','-std=c++17','-O1','-fno-rtti','-w','-I/usr/lib/llvm-18/include',src,'-o',tmp,
        '-L/usr/lib/llvm-18/lib','-l:libclang-cpp.so.18.1','-l:libLLVM.so.18.1'])
    os.replace(tmp,out)
    return out
def extract_cmd(ex,out,src,defs):
    return [ex,out,REPO+'/include/,boost/iterator/,bits/stl_algo.h,bits/stl_algobase.h,bits/stl_numeric.h,bits/predefined_ops.h',src,'--','-std=c++17','-I'+REPO+'/include','-DNDEBUG']+defs+['-I'+CLANGINC]
# kinds 3..5: kinds 0..2 with an allocator that propagates on every assignment and
# swap and selects another allocator for copies
TRAITS=['-DVW_ALLOC(T)=alloc<T,true,true,true>','-DVW_SOCCC']
class NoAnswer(Exception): pass
SPECS={}
TASKS=[]
def worker(i):
    k,f,a,kw,props,tier=TASKS[i]
    from obl import Budget
    S=SPECS[k]
    t=time.time()
    def onalarm(*_): raise Budget()
    signal.signal(signal.SIGALRM,onalarm); signal.alarm(LIMIT)
    try:
        rs=f(S,*a,**kw)
        res=[dict(op=r.op,cfg=r.cfg,paths=r.paths,views=r.views,und=sorted(set(map(str,r.undecided))),find=[(x.props,x.what) for x in r.findings]) for r in rs]
    except Budget: res=[dict(op=f.__name__+str(a)[:60],cfg='',paths=0,views=0,und=['time limit'],find=[])]
    except Exception as e:
        res=[dict(op=f.__name__+str(a)[:60],cfg='',paths=0,views=0,und=['engine: %r at %s'%(e,traceback.format_exc().strip().split('\n')[-3].strip()[:120])],find=[])]
    finally: signal.alarm(0)
    return i,res,time.time()-t,sorted(S.I.analysed)[:0]
LIMIT=60
def load_algs(ks,tmp):
    """kinds 6..8: the algorithms of kinds 0..2, standard algorithms by their definitions"""
    import algx
    from ir import Prog
    ex=build_extractor(); leave=set()
    for attempt in range(5):
        inc=algx.rewrite(REPO,tmp,leave)
        ps=[]
        for k in ks:
            o=os.path.join(tmp,'alg%d.json'%k)
            ps.append((k,o,subprocess.Popen([ex,o,inc+'/,boost/iterator/,witness/',os.path.join(HERE,'witness','alg.cpp'),'--','-std=c++17','-I'+inc,'-DNDEBUG','-DVW_KIND=%d'%(k%3),'-I'+CLANGINC],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)))
        out={}; err=''
        for k,o,p in ps:
            log=p.communicate()[0]
            pr=Prog(o) if not p.returncode and os.path.exists(o) else None
            if pr is None or pr.errors: err+=log
            else: out[k]=pr
        if not err: return out
        more=set(re.findall(r'vref::(\w+)',err))|set(re.findall(r"no member named '(\w+)' in namespace 'vref'",err))
        if not more-leave: more=set(algx.NAMES)
        if not more-leave: break
        leave|=more
    raise NoAnswer('the witness program does not compile: '+err[-1500:])
def load(kinds,defs,tag,tmp,srcs='core.cpp'):
    ex=build_extractor()
    ps=[]
    al=[k for k in kinds if k>=6]
    if al:
        r=load_algs(al,tmp); r.update(load([k for k in kinds if k<6],defs,tag,tmp,srcs)); return r
    for k in kinds:
        o=os.path.join(tmp,'%s%d.json'%(tag,k))
        ps.append((k,o,subprocess.Popen(extract_cmd(ex,o,os.path.join(HERE,'witness',srcs),['-DVW_KIND=%d'%(k%3)]+defs+(TRAITS if k>=3 else [])),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)))
    from ir import Prog
    out={}
    for k,o,p in ps:
        log=p.communicate()[0]
        if p.returncode or not os.path.exists(o): raise NoAnswer('the witness program cannot be analysed: '+log[-1500:])
        pr=Prog(o)
        if pr.errors: raise NoAnswer('the witness program does not compile: '+log[-1500:])
        out[k]=pr
    return out
def abstract(prop,tier,tmp):
    """the abstract interpretation part; -> (findings, stats)"""
    global TASKS,LIMIT
    from obl import Spec,setup_spec
    import registry
    ent={k:[e for e in registry.entries(k) if prop in e[3] and e[4]<=(tier=='thorough')] for k in range(9)}
    kinds=[k for k in ent if ent[k]]
    stats=dict(obligations=0,discharged=0,paths=0,views=0,undecided=[],functions=0,gates=[])
    finds=[]
    if not kinds: return finds,stats
    LIMIT=40 if tier=='quick' else 300
    progs=load(kinds,[],'core',tmp)
    for k,p in progs.items():
        S=SPECS[k]=Spec(p,k%3)
        if tier=='thorough': S.I.max_peel,S.I.max_rounds=5,16
        g=setup_spec(S)
        if S.w.api: stats['gates'].append('kind %d: general states not applicable (%s); states built through the interface'%(k,(g.undecided or [x.what for x in g.findings])[0][:200]))
        stats['functions']+=len(p.fns)
    TASKS=[(k,)+e for k in kinds for e in ent[k]]
    order=sorted(range(len(TASKS)),key=lambda i:-cost(TASKS[i]))
    import gc
    gc.collect(); gc.freeze(); gc.disable()
    man=mp.Manager(); sh=man.dict()
    for S in SPECS.values(): S.shared=sh
    with mp.get_context('fork').Pool(min(8,os.cpu_count() or 1)) as pool:
        for i,res,dt,_ in pool.imap_unordered(worker,order):
            for r in res:
                stats['obligations']+=1
                stats['paths']+=r['paths']; stats['views']+=r['views']
                hits=[w for p,w in r['find'] if prop in p]
                if os.environ.get('VERIF_DEBUG'): print('%.1f'%dt,TASKS[i][0],r['op'],r['cfg'],r['paths'],r['und'][:2],file=sys.stderr)
                if r['und']: stats['undecided'].append('kind %d %s [%s]: %s'%(TASKS[i][0],r['op'],r['cfg'],'; '.join(r['und'])[:160]))
                elif not hits: stats['discharged']+=1
                for w in hits: finds.append(dict(kind=KIND[TASKS[i][0]],operation=r['op'],config=r['cfg'],what=w))
    return finds,stats
def cost(t):
    k,f,a,kw,props,tier=t
    if k>=6: return {'search':9,'search_n':3,'search_ne':3,'find_end':20,'is_permutation':20,'is_permutation_l':20}.get(a[0],1)
    c={'ob_unreg':50,'ob_range':20,'ob_reserve':5}.get(f.__name__,1)
    if k and f.__name__=='ob_range' and 'mid' in a: c*=3
    return c
TECH='abstract interpretation of the resolved C++ (array segmentation + linear constraints, loop invariants verified inductive), outcomes compared with the demanded effect'
TRUST='clang 18 front end; models of libstdc++ containers in sa/stdmodels.py; user operations opaque and possibly throwing'
def known():
    out=[]
    p=os.path.join(HERE,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'known: property=(\S+) key=(.*)$',l.strip())
            if m: out.append((m.group(1),m.group(2)))
    return out
def main():
    if sys.argv[1]=='--setup': build_extractor(); return 0
    prop=sys.argv[1]; tier='quick'
    if '--tier' in sys.argv: tier=sys.argv[sys.argv.index('--tier')+1]
    t0=time.time()
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    tmp=tempfile.mkdtemp(prefix='vw')
    finds=[]; covs=[]
    try:
        try:
            f,s=abstract(prop,tier,tmp); finds+=f
            import extra
            f2,s2=extra.run(prop,tier,tmp,REPO); finds+=f2
        except NoAnswer as e:
            print('NO ANSWER:',e); 
            return 2
    finally: shutil.rmtree(tmp,ignore_errors=True)
    kn=known(); shown=set(); new=[]
    for x in finds:
        key='%s|%s|%s'%(x['kind'],x['operation'],x['what'])
        k=[y for y in kn if y[0]==prop and key.startswith(y[1])]
        if k:
            if k[0] not in shown: shown.add(k[0]); print('KNOWN-FINDING: property=%s %s'%(prop,k[0][1]))
        else: new.append(x)
    ob=s['obligations']+s2['obligations']; di=s['discharged']+s2['discharged']
    ev=dict(property=prop,tier=tier,seed=int(os.environ.get('VERIF_SEED','1')),level=LEVEL,
      coverage=dict(explanation='%d obligations (operation x state shape x element type x collection kind) analysed, %d discharged completely, %d with paths left undecided; %d control-flow outcomes examined, %d view traversals compared; %d functions of the library and the witness resolved by the front end. %s'%(s['obligations'],s['discharged'],len(s['undecided']),s['paths'],s['views'],s['functions'],s2['explanation']),
        obligations=ob,discharged=di,checker_cmd='python3 check.py %s --tier %s'%(prop,tier),trusted_base=TRUST,
        undecided=s['undecided'][:200]+s2['undecided'][:100],notes=s['gates']+s2.get('notes',[])),
      wall_s=round(time.time()-t0,2),violations=[ '%s %s [%s]: %s'%(x['kind'],x['operation'],x['config'],x['what']) for x in new][:50],
      assumptions=ASSUME)
    json.dump(ev,open(os.path.join(HERE,'evidence',prop+'.json'),'w'),indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d findings, %.1fs'%(prop,ob,di,len(s['undecided'])+len(s2['undecided']),len(new),time.time()-t0))
    if new:
        rp=os.path.join(HERE,'evidence','violation-%s.json'%prop)
        json.dump(dict(property=prop,rerun='python3 /verif/check.py %s --tier %s'%(prop,tier),findings=new[:200]),open(rp,'w'),indent=1)
        seen=set()
        for x in new:
            l='%s %s [%s]: %s'%(x['kind'],x['operation'],x['config'],x['what'])
            if x['what'] in seen: continue
            seen.add(x['what'])
            if len(seen)<=6: print('  '+l[:600])
        print('VIOLATION property=%s replay=%s'%(prop,rp))
        return 1
    if ob==0: print('nothing was analysed'); return 2
    return 0
LEVEL='other'
KIND=['base_collection','function_collection','any_collection']; KIND=KIND+[x+' (propagating allocator)' for x in KIND]+KIND
ASSUME=['libstdc++ containers behave as modelled (vector::reserve allocates exactly the requested capacity)','sizes stay far below max_size','element destructors do not throw; other user operations may throw','the witness element types stand for all element types (templates are parametric in them)']
if __name__=='__main__': sys.exit(main())
