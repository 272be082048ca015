#!/usr/bin/env python3
"""seed.py verify ID...   confirm planted bugs: apply to /repo, stable tests pass, demo fails; without it the demo passes; the check reports it
   seed.py check ID...    only whether the property's check reports it"""
import sys,os,json,subprocess,tempfile
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def undo(): sh('git -C /repo checkout -- .')
base=set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
def tests():
    o='/tmp/seed-tests.json'
    sh('bash /opt/vp/build.sh'); sh('bash /opt/vp/test.sh '+o)
    d=json.load(open(o)); p=set(d.get('passed',[]))
    return p
def main():
    mode=sys.argv[1]; ids=sys.argv[2:] or sorted(os.listdir(H+'/seeded'))
    for i in ids:
        d=H+'/seeded/'+i; m=json.load(open(d+'/meta.json')); out=[i,m['property']]
        if mode=='verify':
            r=sh('bash %s/demo.sh'%d,cwd='/repo'); out.append('clean-demo=%d'%r.returncode)
            if r.returncode: print(r.stdout[-1500:])
        r=sh('git -C /repo apply %s/patch.diff'%d)
        if r.returncode: print(i,'DOES NOT APPLY',r.stdout); continue
        try:
            if mode=='verify':
                p=tests(); miss=sorted(base-p)
                out.append('tests-missing=%d %s'%(len(miss),miss[:4]))
                r=sh('bash %s/demo.sh'%d,cwd='/repo',timeout=300); out.append('bug-demo=%d'%r.returncode)
                out.append(r.stdout.strip()[-120:].replace('\n',' | '))
            if mode in('verify','check'):
                r=sh('python3 check.py %s --tier quick'%m['property'],cwd=H)
                out.append('check=%d'%r.returncode); out.append(r.stdout.strip().split('\n')[1][:200] if r.returncode==1 else r.stdout.strip()[-300:])
        finally: undo()
        print(*out,flush=True)
main()
