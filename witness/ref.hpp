// The standard algorithms, as the standard defines them; the analysis uses these
// definitions where the library calls std::X (a copy of the headers is rewritten).
#ifndef VW_REF_HPP
#define VW_REF_HPP
#include <iterator>
#include <utility>
namespace va{template<class T> struct uid{uid(T,T);template<class G> T operator()(G&&);};}
namespace vref{
template<class I,class P> bool all_of(I f,I l,P p){for(;f!=l;++f){if(!p(*f))return false;}return true;}
template<class I,class P> bool any_of(I f,I l,P p){for(;f!=l;++f){if(p(*f))return true;}return false;}
template<class I,class P> bool none_of(I f,I l,P p){for(;f!=l;++f){if(p(*f))return false;}return true;}
template<class I,class F> F for_each(I f,I l,F g){for(;f!=l;++f)g(*f);return g;}
template<class I,class N,class F> I for_each_n(I f,N n,F g){for(;n>0;--n){g(*f);++f;}return f;}
template<class I,class T> I find(I f,I l,const T& x){for(;f!=l;++f){if(*f==x)return f;}return l;}
template<class I,class P> I find_if(I f,I l,P p){for(;f!=l;++f){if(p(*f))return f;}return l;}
template<class I,class P> I find_if_not(I f,I l,P p){for(;f!=l;++f){if(!p(*f))return f;}return l;}
template<class I,class I2> I find_first_of(I f,I l,I2 f2,I2 l2){for(;f!=l;++f){for(I2 s=f2;s!=l2;++s){if(*f==*s)return f;}}return l;}
template<class I,class I2,class P> I find_first_of(I f,I l,I2 f2,I2 l2,P p){for(;f!=l;++f){for(I2 s=f2;s!=l2;++s){if(p(*f,*s))return f;}}return l;}
template<class I,class P> I adjacent_find(I f,I l,P p){if(f==l)return l;I n=f;++n;for(;n!=l;++n){if(p(*f,*n))return f;f=n;}return l;}
template<class I> I adjacent_find(I f,I l){if(f==l)return l;I n=f;++n;for(;n!=l;++n){if(*f==*n)return f;f=n;}return l;}
template<class I,class T> std::ptrdiff_t count(I f,I l,const T& x){std::ptrdiff_t n=0;for(;f!=l;++f){if(*f==x)++n;}return n;}
template<class I,class P> std::ptrdiff_t count_if(I f,I l,P p){std::ptrdiff_t n=0;for(;f!=l;++f){if(p(*f))++n;}return n;}
template<class I,class O> O copy(I f,I l,O o){for(;f!=l;++f){*o=*f;++o;}return o;}
template<class I,class N,class O> O copy_n(I f,N n,O o){for(;n>0;--n){*o=*f;++o;++f;}return o;}
template<class I,class O,class P> O copy_if(I f,I l,O o,P p){for(;f!=l;++f){if(p(*f)){*o=*f;++o;}}return o;}
template<class I,class O> O move(I f,I l,O o){for(;f!=l;++f){*o=std::move(*f);++o;}return o;}
template<class I,class O,class F> O transform(I f,I l,O o,F g){for(;f!=l;++f){*o=g(*f);++o;}return o;}
template<class I,class I2,class O,class F> O transform(I f,I l,I2 f2,O o,F g){for(;f!=l;++f){*o=g(*f,*f2);++o;++f2;}return o;}
template<class I,class O,class T> O remove_copy(I f,I l,O o,const T& x){for(;f!=l;++f){if(!(*f==x)){*o=*f;++o;}}return o;}
template<class I,class O,class P> O remove_copy_if(I f,I l,O o,P p){for(;f!=l;++f){if(!p(*f)){*o=*f;++o;}}return o;}
template<class I,class O,class T> O replace_copy(I f,I l,O o,const T& x,const T& y){for(;f!=l;++f){if(*f==x)*o=y;else *o=*f;++o;}return o;}
template<class I,class O,class P,class T> O replace_copy_if(I f,I l,O o,P p,const T& y){for(;f!=l;++f){if(p(*f))*o=y;else *o=*f;++o;}return o;}
template<class I,class O,class P> O unique_copy(I f,I l,O o,P p){if(f==l)return o;*o=*f;++o;I n=f;for(++n;n!=l;++n){if(!p(*f,*n)){*o=*n;++o;}f=n;}return o;}
template<class I,class O,class O2,class P> std::pair<O,O2> partition_copy(I f,I l,O o,O2 o2,P p){for(;f!=l;++f){if(p(*f)){*o=*f;++o;}else{*o2=*f;++o2;}}return std::pair<O,O2>(o,o2);}
template<class I,class I2,class P> std::pair<I,I2> mismatch(I f,I l,I2 f2,P p){for(;f!=l;++f){if(!p(*f,*f2))break;++f2;}return std::pair<I,I2>(f,f2);}
template<class I,class P> I partition_point(I f,I l,P p){for(;f!=l;++f){if(!p(*f))return f;}return l;}
template<class I> constexpr bool ra=std::is_base_of<std::random_access_iterator_tag,typename std::iterator_traits<I>::iterator_category>::value;
template<class I> std::ptrdiff_t distance(I f,I l){if constexpr(ra<I>)return l-f;else{std::ptrdiff_t n=0;for(;f!=l;++f)++n;return n;}}
template<class I> I next(I f,std::ptrdiff_t n){if constexpr(ra<I>)return f+n;else{for(;n>0;--n)++f;return f;}}
template<class I> I next(I f){++f;return f;}
template<class I,class I2,class P> std::pair<I,I2> mismatch(I f,I l,I2 f2,I2 l2,P p){for(;f!=l&&f2!=l2;++f){if(!p(*f,*f2))break;++f2;}return std::pair<I,I2>(f,f2);}
template<class I,class I2,class P> bool equal(I f,I l,I2 f2,P p){for(;f!=l;++f){if(!p(*f,*f2))return false;++f2;}return true;}
template<class I,class I2> bool equal(I f,I l,I2 f2){for(;f!=l;++f){if(!(*f==*f2))return false;++f2;}return true;}
template<class I,class I2> std::pair<I,I2> mismatch(I f,I l,I2 f2){for(;f!=l;++f){if(!(*f==*f2))break;++f2;}return std::pair<I,I2>(f,f2);}
template<class I,class N> void advance(I& f,N n){if constexpr(ra<I>)f+=n;else for(;n>0;--n)++f;}
template<class I> I prev(I f){--f;return f;}
template<class I> I prev(I f,std::ptrdiff_t n){return f-n;}
template<class I,class P> bool is_partitioned(I f,I l,P p){for(;f!=l;++f){if(!p(*f))break;}for(;f!=l;++f){if(p(*f))return false;}return true;}
}
#endif
