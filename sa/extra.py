"""Analyses beside the abstract interpretation, by property."""
import os,re,subprocess
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W=os.path.join(HERE,'witness')
KIND=['base_collection','function_collection','any_collection']
def stats(): return dict(obligations=0,discharged=0,undecided=[],explanation='',notes=[])
def clean(s): return re.sub(r'\x1b\[[0-9;]*m','',s)
def types(repo,srcs,defs=((),),std=('c++17',)):
    """type-level witnesses: every OB() is one obligation; any other error the
    front end reports is a violation of the witness as a whole."""
    jobs=[]
    for src in srcs:
        for k in range(3):
            for d in defs:
                for sd in std:
                    c=['clang++','-fsyntax-only','-std='+sd,'-ferror-limit=0','-w','-ftemplate-backtrace-limit=0','-fno-caret-diagnostics','-fno-color-diagnostics','-I'+repo+'/include','-DVW_KIND=%d'%k]+['-D'+x for x in d]+[os.path.join(W,src)]
                    jobs.append((src,k,' '.join(d)+' '+sd,c))
    finds=[];s=stats();n=0
    text={src:open(os.path.join(W,src)).read() for src in srcs}
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        outs=list(ex.map(lambda j:subprocess.run(j[3],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True),jobs))
    for (src,k,d,c),r in zip(jobs,outs):
        ob=len(re.findall(r'(?<!define )\b(?:OB|WIT|T1|T2|A1)\(',text[src])); n+=ob; bad=set()
        lines=clean(r.stdout).split('\n')
        for i,l in enumerate(lines):
            m=re.match(r'(\S+?):(\d+):\d+: (?:fatal )?error: (.*)',l)
            if not m: continue
            v=re.search(r'VW:(.*)',m.group(3))
            if v: what='"%s" does not hold'%v.group(1).strip().rstrip('"')
            else:
                where='%s:%s'%(m.group(1).split('/')[-1],m.group(2))
                w=[x for x in lines[i:i+60] if src in x]
                f=re.search(re.escape(src)+r':(\d+)',' '.join(w))
                what='does not compile: %s at %s%s'%(m.group(3)[:160],where,' (used at %s:%s)'%(src,f.group(1)) if f else '')
            if what in bad or len(bad)>40: continue
            bad.add(what)
            finds.append(dict(kind=KIND[k],operation=src,config=d,what=what))
        if r.returncode and not bad: finds.append(dict(kind=KIND[k],operation=src,config=d,what='does not compile: '+clean(r.stdout)[-200:]))
        s['obligations']+=ob; s['discharged']+=max(0,ob-len(bad))
    s['explanation']='%d translation units type-checked, %d type-level obligations.'%(len(jobs),n)
    return finds,s
def run(prop,tier,tmp,repo):
    if prop=='C16': return types(repo,['t16.cpp'],std=('c++17',) if tier=='quick' else ('c++11','c++14','c++17','c++20'))
    if prop=='C18': return types(repo,['t18.cpp'],std=('c++17',) if tier=='quick' else ('c++11','c++14','c++17','c++20'))
    if prop=='C21': return types(repo,['t21.cpp'],std=('c++17',) if tier=='quick' else ('c++11','c++14','c++17','c++20'))
    s=stats()
    if prop=='C17':
        import noexc
        units=[(KIND[k]+l,os.path.join(W,'core.cpp'),['-DVW_KIND=%d'%k]+d) for k in range(3) for l,d in (('',[]),(' (no throwing user types)',['-DVW_NT']))]
        f,t=noexc.analyse(repo,tmp,units)
        finds=[dict(kind=lab.split()[0],operation='noexcept',config='',what=w) for w,lab in f.items()]
        s['obligations']=t['sites']; s['discharged']=max(0,t['sites']-len(finds))
        s['explanation']='Terminate scopes: %d functions in the compiler\'s intermediate representation of %d units, %d terminate handlers reached from the library, each shown not to be entered by an exception of a user operation or allocation.'%(t['functions'],len(units),t['sites'])
        for lab,l in t['errors']: s['undecided'].append(lab+': '+l[-300:])
        return finds,s
    if prop=='C15':
        import writes
        units=[(KIND[k],os.path.join(W,'t15.cpp'),['-DVW_KIND=%d'%k]) for k in range(3)]
        f,t=writes.analyse(repo,tmp,units)
        finds=[dict(kind=lab,operation=w.split(' writes')[0],config='',what=w) for w,lab in f.items()]
        s['obligations']=t['roots']; s['discharged']=max(0,t['roots']-len(finds))
        s['explanation']='Write effects: %d const operations (roots), %d functions and %d stores in the compiler\'s intermediate representation, effects propagated over the call graph.'%(t['roots'],t['functions'],t['stores'])
        for lab,l in t['errors']: s['undecided'].append(lab+': '+l[-300:])
        return finds,s
    return [],s
