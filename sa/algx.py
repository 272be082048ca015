"""Extraction of the algorithms: the library's headers are copied with calls of
standard algorithms redirected to reference definitions of the same meaning."""
import os,re
NAMES='all_of any_of none_of for_each for_each_n find find_if find_if_not find_first_of adjacent_find count count_if mismatch equal copy copy_n copy_if transform remove_copy remove_copy_if replace_copy replace_copy_if unique_copy partition_copy partition_point distance next prev advance is_partitioned'.split()
def rewrite(repo,tmp,leave=()):
    """leave: names whose calls are left alone"""
    RX=re.compile(r'\bstd::(%s)\b(?=\s*[(),<])'%'|'.join(sorted(set(NAMES)-set(leave),key=len,reverse=True)))
    dst=os.path.join(tmp,'vwinc')
    for d,_,fs in os.walk(os.path.join(repo,'include')):
        for f in fs:
            src=os.path.join(d,f); o=os.path.join(dst,os.path.relpath(src,os.path.join(repo,'include')))
            os.makedirs(os.path.dirname(o),exist_ok=True)
            s=open(src,encoding='utf-8',errors='replace').read()
            if f=='algorithm.hpp' or '/detail' in d:
                s=RX.sub(lambda m:'::vref::'+m.group(1),s)
                s=re.sub(r'\bstd::move(?=\s*\))','::vref::move',s)
                s=s.replace('std::uniform_int_distribution','::va::uid')
            open(o,'w').write(s)
    return dst
