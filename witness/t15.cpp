// C15: every const operation.  Functions named vwc_* are the roots of the
// write-effect analysis; whatever they reach through their const arguments is
// shared state.
#include "core.cpp"
#include <boost/poly_collection/algorithm.hpp>
using CC=Coll;
using cit=CC::const_iterator;using clb=CC::const_local_base_iterator;
template<class T> using cli=CC::const_local_iterator<T>;
using TI=const std::type_info&;
cit vwc_begin(const CC& c){return c.begin();}
cit vwc_end(const CC& c){return c.end();}
cit vwc_cbegin(const CC& c){return c.cbegin();}
cit vwc_cend(const CC& c){return c.cend();}
clb vwc_begin_i(const CC& c,TI i){return c.begin(i);}
clb vwc_end_i(const CC& c,TI i){return c.end(i);}
clb vwc_cbegin_i(const CC& c,TI i){return c.cbegin(i);}
clb vwc_cend_i(const CC& c,TI i){return c.cend(i);}
bool vwc_empty(const CC& c){return c.empty();}
bool vwc_empty_i(const CC& c,TI i){return c.empty(i);}
std::size_t vwc_size(const CC& c){return c.size();}
std::size_t vwc_size_i(const CC& c,TI i){return c.size(i);}
std::size_t vwc_max_size_i(const CC& c,TI i){return c.max_size(i);}
std::size_t vwc_cap_i(const CC& c,TI i){return c.capacity(i);}
bool vwc_is_reg_i(const CC& c,TI i){return c.is_registered(i);}
CC::const_base_segment_info vwc_segment_i(const CC& c,TI i){return c.segment(i);}
CC::const_segment_traversal_info vwc_traversal(const CC& c){return c.segment_traversal();}
CC::allocator_type vwc_al(const CC& c){return c.get_allocator();}
bool vwc_equal(const CC& a,const CC& b){return a==b;}
bool vwc_nequal(const CC& a,const CC& b){return a!=b;}
std::size_t vwc_iterate(const CC& c){std::size_t n=0;for(const auto& x:c){sink(&x);++n;}return n;}
void vwc_views(const CC& c){for(auto s:c.segment_traversal()){sink(&s.type_info());for(const auto& x:s)sink(&x);for(auto i=s.cbegin(),e=s.cend();i!=e;++i)sink(&*i);}}
void vwc_views2(const CC& c){auto t=c.segment_traversal();for(auto i=t.cbegin(),e=t.cend();i!=e;++i){sink(&i->type_info());sink(&*i->begin());}}
const void* vwc_deref(const cit& i){return &*i;}
const void* vwc_deref_lb(const clb& i){return &*i;}
bool vwc_eq(const cit& i,const cit& j){return i==j;}
cit vwc_next(const cit& i){auto j=i;++j;return j;}
cit vwc_next2(const cit& i){auto j=i;j++;return j;}
clb vwc_next_lb(const clb& i){return i+1;}
std::ptrdiff_t vwc_diff(const clb& i,const clb& j){return i-j;}
bool vwc_lt(const clb& i,const clb& j){return i<j;}
cit vwc_conv(const CC::iterator& i){return i;}
clb vwc_conv2(const CC::local_base_iterator& i){return i;}
bool vwc_pred(const void*);
template<class T> struct per{
  static bool vwc_is_reg(const CC& c){return c.is_registered<T>();}
  static cli<T> vwc_begin(const CC& c){return c.begin<T>();}
  static cli<T> vwc_end(const CC& c){return c.end<T>();}
  static cli<T> vwc_cbegin(const CC& c){return c.cbegin<T>();}
  static cli<T> vwc_cend(const CC& c){return c.cend<T>();}
  static bool vwc_empty(const CC& c){return c.empty<T>();}
  static std::size_t vwc_size(const CC& c){return c.size<T>();}
  static std::size_t vwc_max_size(const CC& c){return c.max_size<T>();}
  static std::size_t vwc_cap(const CC& c){return c.capacity<T>();}
  static const T* vwc_seg(const CC& c){return &*c.segment<T>().begin();}
  static bool vwc_segloop(const CC& c){for(const auto& x:c.segment<T>())if(vwc_pred(&x))return true;return false;}
  static const T* vwc_deref(const cli<T>& i){return &*i;}
  static const T* vwc_idx(const cli<T>& i,std::ptrdiff_t n){return &i[n];}
  static cli<T> vwc_typed(const clb& i){return cli<T>(i);}
  static clb vwc_untyped(const cli<T>& i){return clb(i);}
  static cli<T> vwc_view(const CC::const_base_segment_info& s){return s.begin<T>();}
};
template struct per<D1>;template struct per<D2>;template struct per<D3>;
struct pr{template<class T> bool operator()(const T& x)const{return vwc_pred(&x);} template<class T,class U> bool operator()(const T& x,const U& y)const{return vwc_pred(&x)&&vwc_pred(&y);}};
template<class... Ts> struct al{
  static void vwc_algs(const CC& c){
    namespace pc=boost::poly_collection;
    auto a=c.begin(),b=c.end();pr p;
    pc::all_of<Ts...>(a,b,p);pc::any_of<Ts...>(a,b,p);pc::none_of<Ts...>(a,b,p);pc::for_each<Ts...>(a,b,p);pc::for_each_n<Ts...>(a,2,p);pc::find_if<Ts...>(a,b,p);
    pc::adjacent_find<Ts...>(a,b,p);sink((void*)pc::count_if<Ts...>(a,b,p));pc::is_partitioned<Ts...>(a,b,p);pc::partition_point<Ts...>(a,b,p);
    pc::mismatch<Ts...>(a,b,a,b,p);pc::equal<Ts...>(a,b,a,b,p);pc::search<Ts...>(a,b,a,b,p);pc::find_first_of<Ts...>(a,b,a,b,p);pc::is_permutation<Ts...>(a,b,a,b,p);pc::find_end<Ts...>(a,b,a,b,p);
  }
};
template struct al<>;template struct al<D1,D2>;
