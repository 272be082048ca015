#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI='abstract interpretation of the resolved C++: every public operation is interpreted on general symbolic states (array segmentation, linear constraints, verified inductive loop invariants), each normal and exceptional outcome is compared with the demanded effect'
ids=[json.loads(l)['id'] for l in open(H+'/properties.jsonl')]
TECH={i:AI for i in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C17'.split()}
TECH['C15']='write-effect analysis over the LLVM IR of every const operation (stores classified by the object they reach, effects propagated over the call graph), plus abstract interpretation of copying and comparing with the source object watched'
TECH['C16']='type-level encoding: static assertions over every const access path and every const-to-mutable conversion, decided by the compiler front end'
TECH['C17']=AI+'; plus terminate-scope analysis over the LLVM IR (no exception of a user operation or of allocation can reach a noexcept boundary of the library)'
TECH['C18']='type-level encoding: acceptance and rejection of every operation for types with each combination of the documented requirements, decided by overload resolution in the front end; plus abstract interpretation of copying and comparing non-copyable and non-comparable elements'
TECH['C21']='compile witnesses: every operation and algorithm instantiated with client types that delete everything their requirements do not name (operators &, comma, new; greedy and initializer-list constructors; minimal iterators, predicates, allocators, count types), so that any use beyond the requirements fails to build'
MON='abstract interpretation of every algorithm over collections of symbolic segment sizes and all type lists, with a monitor per algorithm following each element handed to a user function (its identity, order, static type) and the composed result; loops by verified multi-counter invariants'
TECH['C19']=MON
TECH['C20']=MON
CLAIM='C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21'.split()
NA={'C22':'equality of returned values quantifies over the values user functions compute from run-time contents; static analysis of this source bounds which elements are read and how partial results are combined (C20) but not those values',
'C23':'running time and amortised cost are quantitative run-time measures resting on the growth policy of the standard containers; no static rule over this source decides them (contiguity itself is covered by C01)'}
NOTE='All outcomes of the listed operations from general states; outcomes the analysis cannot decide are counted in the evidence and never reported as violations. Rests on the container models and the assumptions listed in the evidence.'
exec(open(os.path.join(H,'tools','claims.py')).read()) if os.path.exists(os.path.join(H,'tools','claims.py')) else None
m=dict(version=1,setup_cmd='python3 check.py --setup',checks=[],not_applicable=[])
for i in ids:
    if i in CLAIM:
        m['checks'].append(dict(property=i,quick_cmd='python3 check.py %s --tier quick'%i,thorough_cmd='python3 check.py %s --tier thorough'%i,technique=TECH[i],level='other',level_note=NOTE))
    else: m['not_applicable'].append(dict(property=i,reason=NA.get(i,'no check yet')))
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
