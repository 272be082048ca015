"""Which obligations decide which property.  An entry is
(obligation function, arguments, properties, tier); tier 0 = quick and thorough, 1 = thorough."""
from obl2 import *
P_INS=('C01','C02','C04','C05','C07','C09','C10','C13','C14','C17')
P_ERA=('C01','C02','C04','C05','C09','C13','C14','C17')
P_CAP=('C01','C04','C05','C08','C13','C14','C17')
P_WH=('C11','C13','C14','C01','C05','C17','C18')
def whole(add,kind):
    C=[('D1','gen'),('D2','fresh')]; C2=[('D2','gen'),('D1','gen')]; C3=[('D3','gen'),('D1','gen')]
    tr=kind>=3; P=('C11','C13') if tr else P_WH
    for nm in('copy','copy_al'):
        for c in([],C,C2,C3): add(ob_copy,c,nm,props=P+(() if tr else ('C15',)),tier=0 if c in(C,C3) else 1)
    for c in([],C2,C3):
        q=0 if c!=[] else 1
        add(ob_move,c,'move',props=P,tier=q); add(ob_move,c,'move_al',props=P,tier=q); add(ob_move,c,'move_al',False,props=P,tier=q)
    for nm in('assign','massign'):
        for s in(True,False):
            add(ob_assign,C2,C,nm,s,props=P); add(ob_assign,[],C3,nm,s,props=P,tier=1); add(ob_assign,C3,[],nm,s,props=P,tier=1)
        add(ob_selfassign,C2,nm,props=P)
    add(ob_swap,C2,C,'swap',props=P); add(ob_swap,C3,[],'swap2',props=P)
    if tr: return
    add(ob_destroy,C2+[('D3','fresh')],props=('C14','C13','C17'))
    for nm in('equal','nequal'):
        D12=[('D1','gen'),('D2','gen')]; D21=D12[::-1]; D1_=D12[:1]
        for a,b,t in((C,C2,0),(C2,C2,0),(C3,C3,0),([],C,0),(C,[],0),(D1_,D12,0),(D12,D1_,0),(D12,D21,0),(D21[:1],D1_,0),([],[],0),(D12+[('D3','fresh')],[('D3','fresh')]+D1_,0)): add(ob_equal,a,b,nm,props=('C12','C15','C18'),tier=t)
def algs(add,kind):
    import alg
    for nm in alg.ALGS:
        e=nm in alg.EXTRA
        for i,Ts in enumerate(alg.INST):
            for sh in alg.shapes(nm):
                for n in alg.variants(nm,sh):
                    if sh>=alg.HBASE and nm not in alg.HARD and not nm.startswith('search'): q=(i,sh) in((1,100),(2,101),(3,103)) and n!=4 and not e
                    elif sh>=alg.HBASE: q=i==1 and sh==100 if e else i in(1,3) and sh in(100,101,103) or i==2 and sh in(102,104)
                    elif e: q=sh==0 and i in(1,3) and not nm.startswith('search')
                    else:
                        q=(sh in(0,2,10) and i in(1,3) or sh in(8,11) and i==2 or sh in(5,6) and i==1 or sh==0 and i==0) and (n!=3 or nm in('search_n','search_ne'))
                        if nm=='search' and n: q=sh in(1,8) and i==1
                    add(alg.ob_alg,nm,Ts,sh,n,props=('C19','C20'),tier=0 if q else 1)
NOCOPY=[('insert_v','end'),('insert_hv','hint'),('insert_lbv','LB'),('insert_clbv','CLB')]
def entries(kind):
    E=[]
    def add(f,*a,props,tier=0,**kw): E.append((f,a,kw,tuple(props),tier))
    if kind>=6: algs(add,kind-6); return E
    whole(add,kind)
    if kind==3:
        # the base class is itself a possible element type here
        for o in SINGLE:
            if o[0]=='vops': add(ob_single,'D1',*o,'mid',props=('C02','C10','C07','C01'))
        for h in(0,1): add(ob_grange,[('D2','gen')],[('D1',1),('D2',1)],h,props=('C02','C10','C07','C01'))
        add(ob_unreg,'D1','other',props=('C07','C02'))
    if kind>=3: return E
    for nm,pos in NOCOPY:
        for c in('mid','fresh'): add(ob_nocopy,nm,pos,c,props=('C18','C01'),tier=0 if c=='mid' else 1)
    # single insertions
    for T in('D1','D2','D3'):
        for o in SINGLE:
            if T=='D3' and (o[0]=='cops' or o[3]=='vc'): continue
            for c in('mid','fresh'):
                main=c=={'D1':'mid','D2':'fresh','D3':'mid'}[T] or o[3]=='emplace' and T=='D1'
                q=main and (kind!=2 or T=='D1' and o[2] in('end','L','LB','CLB') or o[0]=='vops')
                add(ob_single,T,*o,c,props=P_INS,tier=0 if q else 1)
                if c=='mid' and o[3] in('c','vc'):
                    add(ob_single,T,*o,c,props=('C03','C14'),tier=0 if kind!=2 or T=='D1' else 1,alias=True)
            if T!='D3' or o[3] not in('vc',): add(ob_single,T,*o,'mid',props=('C06','C05'),tier=0 if o[2] in('end','LB','hint') and T=='D1' else 1,alt=True)
    for T in('D1','D2','D3'):
        for c in('mid','only','last'):
            q=0 if (T,c) in(('D1','mid'),('D2','last'),('D3','only')) else 1
            for o in ERASE1: add(ob_erase1,T,*o,c,props=P_ERA,tier=q)
            for o in ERASER: add(ob_eraser,T,*o,c,props=P_ERA,tier=q)
    C3=[('D1','gen'),('D2','gen'),('D3','gen')]
    for a,b in((0,1),(0,2),(1,2),(0,None),(1,None),(2,None)): add(ob_erase_span,C3,a,b,props=P_ERA+('C08',),tier=0 if (a,b) in((0,1),(0,2),(1,None)) else 1)
    add(ob_erase_none,C3,props=P_ERA+('C08',)); add(ob_erase_none,[],props=P_ERA+('C08',))
    for o in RANGES:
        for t in('D1','D2'):
            for c in('mid','fresh'):
                q=0 if c=='fresh' and t=='D1' or c=='mid' and t=='D1' and o[2]!='hint' and not(kind and o[3]!='u') else 1
                add(ob_range,t,*o,c,props=P_INS,tier=q)
    # source ranges of given lengths
    for o in RANGES:
        for c in('mid','fresh'):
            for m in(1,2): add(ob_range,'D1',*o,c,props=P_INS,tier=0 if c=='mid' and m==2 and (o[2]=='hint' or o[3]!='u' or kind==0) else 1,m=m)
    for o in MRANGES:
        for c in('mid','fresh'):
            for m in(1,2): add(ob_range,'D1',*o,c,props=('C10','C02'),tier=0 if c=='mid' and m==1 or kind==0 and m==2 else 1,m=m)
    for ac in([('D1','gen'),('D2','gen')],[('D2','gen')],[('D2','fresh'),('D1','gen')]):
        for bc in([('D1',1),('D2',1)],[('D1',1),('D3','fresh'),('D2',1)],[('D2',2)]):
            for h in(0,1): add(ob_grange,ac,bc,h,props=P_INS+('C07',),tier=0 if len(bc)==2 or h and ac[0][0]=='D1' else 1)
    for t in('D1','D2','D3'):
        for h in('whole','i','t'):
            for f in(ob_reserve,ob_shrink,ob_clear):
                add(f,t,h,props=P_CAP,tier=0 if t!='D2' else 1)
                if h=='i': add(f,t,h,props=('C06','C08'),tier=0 if t=='D1' else 1,alt=True)
    for cfg in([],[('D1','gen'),('D2','fresh'),('D3','gen')],[('D2','gen')],[('D3',2),('D1',1)]):
        for alt in(False,True):
            add(ob_query,cfg,alt,props=('C08','C01','C05','C06','C07','C09'))
    for cfg in([],[('D1','gen'),('D2','fresh'),('D3','gen')],[('D3','gen'),('D2','gen')]):
        add(ob_views,cfg,props=('C09','C01','C08')); add(ob_views,cfg,1,props=('C06',),tier=0 if len(cfg)==2 else 1)
    for a in(('D1','cops','ctor_fi','u'),('D2','cops','ctor_ii','u'),('D1','cops','ctor_loc','CL'),('D2','cops','ctor_locb','CLB'),('D1','whole','ctor_g','G')):
        add(ob_ctor,*a,props=('C02','C01','C05','C07','C10','C13','C14','C17'))
    for t in('D1','D2','D3'):
        for c in('none','other'): add(ob_unreg,t,c,props=('C07','C05','C01','C14','C13','C02'),tier=0 if t=='D1' or c=='other' and t=='D3' else 1)
        if kind==0 and t!='D2':
            for c in('mid','fresh','other','none'): add(ob_subtype,t,c,props=('C07','C05','C10'))
        for c in('mid','fresh'): add(ob_reg,t,c,props=('C07','C05','C01','C04'))
    # the same with few elements in every segment
    SM=('ob_single','ob_erase1','ob_eraser','ob_erase_span','ob_reserve','ob_shrink','ob_clear','ob_views','ob_query','ob_copy','ob_move','ob_assign','ob_swap','ob_destroy','ob_equal')
    for f,a,kw,pr,t in list(E):
        g=f.__name__
        if g not in SM or 'D2' in a or g=='ob_query' and not a[0]: continue
        for n in(1,2):
            q=t==0 and (g in('ob_clear','ob_shrink','ob_reserve') or n==1 and g in('ob_erase1','ob_eraser','ob_erase_span') or n==2 and g=='ob_single' and a[0]=='D1' and a[3] in('end','LB','CL') and not kw)
            add(ob_small,n,g,*a,props=pr,tier=0 if q else 1,**kw)
    return E
