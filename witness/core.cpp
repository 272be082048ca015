// Witness program: one function per public operation.  It is never run; it
// makes the compiler instantiate and resolve everything behind the operation.
#include "types.hpp"
#ifdef VW_ALG
#include "ref.hpp"
#include <boost/poly_collection/algorithm.hpp>
#endif
#if VW_KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif VW_KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#include <boost/mpl/vector.hpp>
#endif
using namespace vt;

template<class C> struct whole{
  using It=typename C::iterator;using CIt=typename C::const_iterator;
  static It begin(C& c){return c.begin();}
  static It end(C& c){return c.end();}
  static CIt cbegin(const C& c){return c.begin();}
  static CIt cend(const C& c){return c.end();}
  static CIt cbegin2(const C& c){return c.cbegin();}
  static CIt cend2(const C& c){return c.cend();}
  static void inc(It& i){++i;}
  static void cinc(CIt& i){++i;}
  static bool eq(const It& a,const It& b){return a==b;}
  static bool ceq(const CIt& a,const CIt& b){return a==b;}
  static bool cne(const CIt& a,const CIt& b){return a!=b;}
  static const typename C::value_type* cderef(const CIt& a){return &*a;}
  static typename C::value_type* deref(const It& a){return &*a;}
  static CIt conv(const It& a){return a;}
  static bool empty(const C& c){return c.empty();}
  static std::size_t size(const C& c){return c.size();}
  static void reserve(C& c,std::size_t n){c.reserve(n);}
  static void shrink(C& c){c.shrink_to_fit();}
  static void clear(C& c){c.clear();}
  static It erase(C& c,CIt p){return c.erase(p);}
  static It erase_r(C& c,CIt f,CIt l){return c.erase(f,l);}
  static bool equal(const C& a,const C& b){return a==b;}
  static bool nequal(const C& a,const C& b){return a!=b;}
  static void swap(C& a,C& b){a.swap(b);}
  static void swap2(C& a,C& b){using std::swap;swap(a,b);}
  static C copy(const C& a){return a;}
  static C move(C& a){return std::move(a);}
  static C copy_al(const C& a,const typename C::allocator_type& al){return C(a,al);}
  static C move_al(C& a,const typename C::allocator_type& al){return C(std::move(a),al);}
  static C make_al(const typename C::allocator_type& al){return C(al);}
  static void assign(C& a,const C& b){a=b;}
  static void massign(C& a,C& b){a=std::move(b);}
  static typename C::allocator_type get_allocator(const C& a){return a.get_allocator();}
  static void destroy(C& a){a.~C();}
#ifdef VW_SOCCC
  static typename C::allocator_type soccc(const typename C::allocator_type& a){return a.select_on_container_copy_construction();}
#endif
  static C ctor_g(CIt f,CIt l,const typename C::allocator_type& al){return C(f,l,al);}
  static void insert_g(C& c,CIt f,CIt l){c.insert(f,l);}
  static void insert_hg(C& c,CIt h,CIt f,CIt l){c.insert(h,f,l);}
  // by type_info
  using TI=const std::type_info&;
  using LB=typename C::local_base_iterator;using CLB=typename C::const_local_base_iterator;
  static bool is_reg_i(const C& c,TI i){return c.is_registered(i);}
  static LB begin_i(C& c,TI i){return c.begin(i);}
  static LB end_i(C& c,TI i){return c.end(i);}
  static CLB cbegin_i(const C& c,TI i){return c.begin(i);}
  static CLB cend_i(const C& c,TI i){return c.end(i);}
  static CLB cbegin2_i(const C& c,TI i){return c.cbegin(i);}
  static CLB cend2_i(const C& c,TI i){return c.cend(i);}
  static bool empty_i(const C& c,TI i){return c.empty(i);}
  static std::size_t size_i(const C& c,TI i){return c.size(i);}
  static std::size_t max_size_i(const C& c,TI i){return c.max_size(i);}
  static std::size_t cap_i(const C& c,TI i){return c.capacity(i);}
  static void reserve_i(C& c,TI i,std::size_t n){c.reserve(i,n);}
  static void shrink_i(C& c,TI i){c.shrink_to_fit(i);}
  static void clear_i(C& c,TI i){c.clear(i);}
  static LB seg_begin_i(C& c,TI i){return c.segment(i).begin();}
  static LB seg_end_i(C& c,TI i){return c.segment(i).end();}
  static CLB cseg_begin_i(const C& c,TI i){return c.segment(i).begin();}
  static CLB cseg_end_i(const C& c,TI i){return c.segment(i).end();}
  static LB erase_lb(C& c,LB p){return c.erase(p);}
  static LB erase_clb(C& c,CLB p){return c.erase(p);}
  static LB erase_lb_r(C& c,LB f,LB l){return c.erase(f,l);}
  static LB erase_clb_r(C& c,CLB f,CLB l){return c.erase(f,l);}
  static const typename C::value_type* deref_lb(const CLB& a){return &*a;}
  static void inc_lb(CLB& a){++a;}
  static void dec_lb(CLB& a){--a;}
  static void adv_lb(CLB& a,std::ptrdiff_t n){a+=n;}
  static std::ptrdiff_t diff_lb(const CLB& a,const CLB& b){return a-b;}
  static bool eq_lb(const CLB& a,const CLB& b){return a==b;}
  static CLB conv_lb(const LB& a){return a;}
  // traversals: what each view of the collection shows
  static void visit(const C& c){for(auto i=c.begin(),e=c.end();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_m(C& c){for(auto i=c.begin(),e=c.end();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_i(const C& c,TI t){for(auto i=c.begin(t),e=c.end(t);i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_from(const C& c,CIt i){for(auto e=c.end();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_lb(typename C::const_local_base_iterator i,typename C::const_local_base_iterator e){for(;i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_st(const C& c){
    auto r=c.segment_traversal();
    for(auto s=r.begin(),e=r.end();s!=e;++s){
      vt::sink_ti(s->type_info());
      for(auto i=s->begin(),f=s->end();i!=f;++i)vt::sink(std::addressof(*i));
    }
  }
  static void visit_seg_i(C& c,TI t){auto s=c.segment(t);for(auto i=s.begin(),e=s.end();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_segc_i(const C& c,TI t){auto s=c.segment(t);for(auto i=s.cbegin(),e=s.cend();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_segk_i(C& c,TI t){const auto s=c.segment(t);for(auto i=s.begin(),e=s.end();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_ci(const C& c,TI t){for(auto i=c.cbegin(t),e=c.cend(t);i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_mi(C& c,TI t){for(auto i=c.begin(t),e=c.end(t);i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_idx_i(const C& c,TI t){auto b=c.begin(t),e=c.end(t);for(std::ptrdiff_t k=0,n=e-b;k<n;++k)vt::sink(std::addressof(b[k]));}
  static void visit_add_i(C& c,TI t){auto b=c.begin(t),e=c.end(t);for(std::ptrdiff_t k=0,n=e-b;k<n;++k)vt::sink(std::addressof(*(b+k)));}
  static void visit_sub_i(const C& c,TI t){auto b=c.begin(t),e=c.end(t);for(std::ptrdiff_t k=0,n=e-b;k<n;++k)vt::sink(std::addressof(*(e-(n-k))));}
  static void visit_lt_i(const C& c,TI t){auto i=c.begin(t);for(auto e=c.end(t);i<e;i++)vt::sink(std::addressof(*i));}
  static void visit_dec_i(const C& c,TI t){auto i=c.begin(t);for(auto e=c.end(t);i!=e;){++i;--i;vt::sink(std::addressof(*i));++i;}}
  static void visit_mc(C& c){for(CIt i=c.begin();i!=c.cend();i++)vt::sink(std::addressof(*i));}
  static void visit_cb(const C& c){for(auto i=c.cbegin(),e=c.cend();!(i==e);++i)vt::sink(std::addressof(*i));}
  static void visit_stm(C& c){
    auto r=c.segment_traversal();
    for(auto s=r.begin(),e=r.end();s!=e;++s){
      auto x=*s;vt::sink_ti(x.type_info());
      for(auto i=x.begin(),f=x.end();i!=f;++i)vt::sink(std::addressof(*i));
    }
  }
  static void visit_stc(C& c){
    const auto r=c.segment_traversal();
    for(typename C::const_base_segment_info_iterator s=r.cbegin(),e=r.cend();s!=e;s++){
      vt::sink_ti(s->type_info());
      for(auto i=s->cbegin(),f=s->cend();i!=f;++i)vt::sink(std::addressof(*i));
    }
  }
  static void visit_stk(C& c){
    auto r=c.segment_traversal();
    typename C::const_base_segment_info_iterator s=r.begin(),e=r.end();
    for(;!(s==e);++s){
      vt::sink_ti(s->type_info());
      for(auto i=s->begin(),f=s->end();i!=f;++i)vt::sink(std::addressof(*i));
    }
  }
  // segment traversal
  using SI=typename C::base_segment_info_iterator;using CSI=typename C::const_base_segment_info_iterator;
  static SI st_begin(C& c){return c.segment_traversal().begin();}
  static SI st_end(C& c){return c.segment_traversal().end();}
  static CSI cst_begin(const C& c){return c.segment_traversal().begin();}
  static CSI cst_end(const C& c){return c.segment_traversal().end();}
  static CSI cst_cbegin(const C& c){return c.segment_traversal().cbegin();}
  static CSI cst_cend(const C& c){return c.segment_traversal().cend();}
  static void st_inc(CSI& i){++i;}
  static bool st_eq(const CSI& a,const CSI& b){return a==b;}
  static const std::type_info* st_ti(const CSI& a){return &a->type_info();}
  static CLB st_b(const CSI& a){return a->begin();}
  static CLB st_e(const CSI& a){return a->end();}
  static CSI st_conv(const SI& a){return a;}
};

template<class C,class T> struct ops{
  using It=typename C::iterator;using CIt=typename C::const_iterator;
  using LB=typename C::local_base_iterator;using CLB=typename C::const_local_base_iterator;
  using L=typename C::template local_iterator<T>;using CL=typename C::template const_local_iterator<T>;
  static void reg(C& c){c.template register_types<T>();}
  static bool is_reg(const C& c){return c.template is_registered<T>();}
  static L begin(C& c){return c.template begin<T>();}
  static L end(C& c){return c.template end<T>();}
  static CL cbegin(const C& c){return c.template begin<T>();}
  static CL cend(const C& c){return c.template end<T>();}
  static CL cbegin2(const C& c){return c.template cbegin<T>();}
  static CL cend2(const C& c){return c.template cend<T>();}
  static bool empty(const C& c){return c.template empty<T>();}
  static std::size_t size(const C& c){return c.template size<T>();}
  static std::size_t max_size(const C& c){return c.template max_size<T>();}
  static std::size_t cap(const C& c){return c.template capacity<T>();}
  static void reserve(C& c,std::size_t n){c.template reserve<T>(n);}
  static void shrink(C& c){c.template shrink_to_fit<T>();}
  static void clear(C& c){c.template clear<T>();}
  static L seg_begin(C& c){return c.template segment<T>().begin();}
  static L seg_end(C& c){return c.template segment<T>().end();}
  static CL cseg_begin(const C& c){return c.template segment<T>().begin();}
  static CL cseg_end(const C& c){return c.template segment<T>().end();}
  static L segb_begin(C& c,const std::type_info& i){return c.segment(i).template begin<T>();}
  static L segb_end(C& c,const std::type_info& i){return c.segment(i).template end<T>();}
  static void visit_t(const C& c){for(auto i=c.template begin<T>(),e=c.template end<T>();i!=e;++i)vt::sink(std::addressof(*i));}
  using TI=const std::type_info&;
  static void visit_ct(const C& c){for(auto i=c.template cbegin<T>(),e=c.template cend<T>();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_mt(C& c){for(auto i=c.template begin<T>(),e=c.template end<T>();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_seg_t(C& c){auto s=c.template segment<T>();for(auto i=s.begin(),e=s.end();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_segc_t(const C& c){auto s=c.template segment<T>();for(auto i=s.cbegin(),e=s.cend();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_segk_t(C& c){const auto s=c.template segment<T>();for(auto i=s.begin(),e=s.end();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_segb_t(C& c,TI t){auto s=c.segment(t);for(auto i=s.template begin<T>(),e=s.template end<T>();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_segbc_t(const C& c,TI t){auto s=c.segment(t);for(auto i=s.template cbegin<T>(),e=s.template cend<T>();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_segbk_t(C& c,TI t){const auto s=c.segment(t);for(auto i=s.template begin<T>(),e=s.template end<T>();i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_idx_t(const C& c){auto b=c.template begin<T>(),e=c.template end<T>();for(std::ptrdiff_t k=0,n=e-b;k<n;++k)vt::sink(std::addressof(b[k]));}
  static void visit_add_t(C& c){auto b=c.template begin<T>(),e=c.template end<T>();for(std::ptrdiff_t k=0,n=e-b;k<n;++k)vt::sink(std::addressof(*(b+k)));}
  static void visit_sub_t(const C& c){auto b=c.template begin<T>(),e=c.template end<T>();for(std::ptrdiff_t k=0,n=e-b;k<n;++k)vt::sink(std::addressof(*(e-(n-k))));}
  static void visit_lt_t(const C& c){auto i=c.template begin<T>();for(auto e=c.template end<T>();i<e;i++)vt::sink(std::addressof(*i));}
  static void visit_dec_t(const C& c){auto i=c.template begin<T>();for(auto e=c.template end<T>();i!=e;){++i;--i;vt::sink(std::addressof(*i));++i;}}
  static void visit_fb(const C& c,TI t){CL i(c.begin(t)),e(c.end(t));for(;i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_fbm(C& c,TI t){L i(c.begin(t)),e(c.end(t));for(;i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_tb(const C& c){CLB i(c.template begin<T>()),e(c.template end<T>());for(;i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_tbm(C& c){LB i(c.template begin<T>()),e(c.template end<T>());for(;i!=e;++i)vt::sink(std::addressof(*i));}
  static void visit_cl(CL i,CL e){for(;i!=e;++i)vt::sink(std::addressof(*i));}
  // insertion
  static It emplace(C& c,int a,long& b,const char& k){return c.template emplace<T>(a,std::move(b),k);}
  static It emplace_hint(C& c,CIt h,int a,long& b,const char& k){return c.template emplace_hint<T>(h,a,std::move(b),k);}
  static LB emplace_pos_lb(C& c,LB h,int a,long& b,const char& k){return c.template emplace_pos<T>(h,a,std::move(b),k);}
  static LB emplace_pos_clb(C& c,CLB h,int a,long& b,const char& k){return c.template emplace_pos<T>(h,a,std::move(b),k);}
  static L emplace_pos_l(C& c,L h,int a,long& b,const char& k){return c.emplace_pos(h,a,std::move(b),k);}
  static L emplace_pos_cl(C& c,CL h,int a,long& b,const char& k){return c.emplace_pos(h,a,std::move(b),k);}
  static It insert_m(C& c,T& x){return c.insert(std::move(x));}
  static It insert_hm(C& c,CIt h,T& x){return c.insert(h,std::move(x));}
  static LB insert_lb_m(C& c,LB h,T& x){return c.insert(h,std::move(x));}
  static LB insert_clb_m(C& c,CLB h,T& x){return c.insert(h,std::move(x));}
  static L insert_l_m(C& c,L h,T& x){return c.insert(h,std::move(x));}
  static L insert_cl_m(C& c,CL h,T& x){return c.insert(h,std::move(x));}
  // erasure through typed iterators
  static L erase_l(C& c,L p){return c.erase(p);}
  static L erase_cl(C& c,CL p){return c.erase(p);}
  static L erase_l_r(C& c,L f,L l){return c.erase(f,l);}
  static L erase_cl_r(C& c,CL f,CL l){return c.erase(f,l);}
  // iterators
  static const T* deref(const CL& a){return &*a;}
  static void inc(CL& a){++a;}
  static void dec(CL& a){--a;}
  static void adv(CL& a,std::ptrdiff_t n){a+=n;}
  static std::ptrdiff_t diff(const CL& a,const CL& b){return a-b;}
  static bool eq(const CL& a,const CL& b){return a==b;}
  static CL conv(const L& a){return a;}
  static CLB to_base(const CL& a){return CLB(a);}
  static CL from_base(const CLB& a){return CL(a);}
  static LB to_base_m(const L& a){return LB(a);}
  static L from_base_m(const LB& a){return L(a);}
};
template<class C,class T> struct cops{ // copyable T
  using It=typename C::iterator;using CIt=typename C::const_iterator;
  using LB=typename C::local_base_iterator;using CLB=typename C::const_local_base_iterator;
  using L=typename C::template local_iterator<T>;using CL=typename C::template const_local_iterator<T>;
  static It insert_c(C& c,const T& x){return c.insert(x);}
  static It insert_n(C& c,T& x){return c.insert(x);}
  static It insert_hc(C& c,CIt h,const T& x){return c.insert(h,x);}
  static It insert_hn(C& c,CIt h,T& x){return c.insert(h,x);}
  static LB insert_lb_c(C& c,LB h,const T& x){return c.insert(h,x);}
  static LB insert_clb_c(C& c,CLB h,const T& x){return c.insert(h,x);}
  static L insert_l_c(C& c,L h,const T& x){return c.insert(h,x);}
  static L insert_cl_c(C& c,CL h,const T& x){return c.insert(h,x);}
  static L insert_l_n(C& c,L h,T& x){return c.insert(h,x);}
  static It emplace_1(C& c,const T& x){return c.template emplace<T>(x);}
  static It emplace_hint_1(C& c,CIt h,const T& x){return c.template emplace_hint<T>(h,x);}
  static L emplace_pos_l_1(C& c,L h,const T& x){return c.emplace_pos(h,x);}
  static LB emplace_pos_lb_1(C& c,LB h,const T& x){return c.template emplace_pos<T>(h,x);}
  // ranges
  using FI=user_iter<T,std::forward_iterator_tag>;using II=user_iter<T,std::input_iterator_tag>;
  static void insert_fi(C& c,FI f,FI l){c.insert(f,l);}
  static void insert_ii(C& c,II f,II l){c.insert(f,l);}
  static void insert_h_fi(C& c,CIt h,FI f,FI l){c.insert(h,f,l);}
  static void insert_h_ii(C& c,CIt h,II f,II l){c.insert(h,f,l);}
  static LB insert_clb_fi(C& c,CLB h,FI f,FI l){return c.insert(h,f,l);}
  static L insert_cl_fi(C& c,CL h,FI f,FI l){return c.insert(h,f,l);}
  static L insert_l_fi(C& c,L h,FI f,FI l){return c.insert(h,f,l);}
  static void insert_loc(C& c,CL f,CL l){c.insert(f,l);}
  static void insert_h_loc(C& c,CIt h,CL f,CL l){c.insert(h,f,l);}
  static void insert_locb(C& c,CLB f,CLB l){c.insert(f,l);}
  static void insert_h_locb(C& c,CIt h,CLB f,CLB l){c.insert(h,f,l);}
  // the iterators yield rvalues
  using RI=user_iter<T,std::forward_iterator_tag,T&&>;
  static void insert_ri(C& c,RI f,RI l){c.insert(f,l);}
  static void insert_h_ri(C& c,CIt h,RI f,RI l){c.insert(h,f,l);}
  static LB insert_clb_ri(C& c,CLB h,RI f,RI l){return c.insert(h,f,l);}
  static L insert_cl_ri(C& c,CL h,RI f,RI l){return c.insert(h,f,l);}
  static C ctor_ii(II f,II l,const typename C::allocator_type& al){return C(f,l,al);}
  static C ctor_loc(CL f,CL l,const typename C::allocator_type& al){return C(f,l,al);}
  static C ctor_locb(CLB f,CLB l,const typename C::allocator_type& al){return C(f,l,al);}
  static C ctor_fi(FI f,FI l,const typename C::allocator_type& al){return C(f,l,al);}
};
template<class C,class V> struct vops{ // insertion through the value type
  using It=typename C::iterator;using CIt=typename C::const_iterator;
  using LB=typename C::local_base_iterator;using CLB=typename C::const_local_base_iterator;
  static It insert_v(C& c,const V& x){return c.insert(x);}
  static It insert_hv(C& c,CIt h,const V& x){return c.insert(h,x);}
  static LB insert_lbv(C& c,LB h,const V& x){return c.insert(h,x);}
  static It insert_vm(C& c,V& x){return c.insert(std::move(x));}
  static LB insert_clbv(C& c,CLB h,const V& x){return c.insert(h,x);}
  static It insert_hvm(C& c,CIt h,V& x){return c.insert(h,std::move(x));}
  static LB insert_lbvm(C& c,LB h,V& x){return c.insert(h,std::move(x));}
};

#ifndef VW_ALLOC
#define VW_ALLOC(T) alloc<T>
#endif
#if VW_KIND==0
using Coll=boost::base_collection<base,VW_ALLOC(base)>;
#elif VW_KIND==1
using Coll=boost::function_collection<int(int),VW_ALLOC(boost::poly_collection::function_collection_value_type<int(int)>)>;
#else
namespace te=boost::type_erasure;
using concept_=boost::mpl::vector<te::typeid_<>,te::relaxed,te::callable<int(int),const te::_self>>;
using Coll=boost::any_collection<concept_,VW_ALLOC(boost::poly_collection::any_collection_value_type<concept_>)>;
#endif
template struct whole<Coll>;
template struct ops<Coll,D1>;
template struct ops<Coll,D2>;
template struct ops<Coll,D3>;
#ifndef VW_ALG
template struct vops<Coll,Coll::value_type>;
template struct cops<Coll,D1>;
template struct cops<Coll,D2>;
#endif
