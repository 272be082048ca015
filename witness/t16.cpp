// C16: const access never yields mutable access.
#include "ob.hpp"
#include <boost/poly_collection/algorithm.hpp>
#include <memory>
template<class T> T& lv();
template<class T> const T& clv();
template<class C,class T> struct chk{
  using It=typename C::iterator;using CIt=typename C::const_iterator;
  using LB=typename C::local_base_iterator;using CLB=typename C::const_local_base_iterator;
  using LI=typename C::template local_iterator<T>;using CLI=typename C::template const_local_iterator<T>;
  using BS=typename C::base_segment_info;using CBS=typename C::const_base_segment_info;
  using S=typename C::template segment_info<T>;using CS=typename C::template const_segment_info<T>;
  using BSI=typename C::base_segment_info_iterator;using CBSI=typename C::const_base_segment_info_iterator;
  using ST=typename C::segment_traversal_info;using CST=typename C::const_segment_traversal_info;
  using V=typename C::value_type;
#define R(e) decltype(e)
#define cc clv<C>()
#define mc lv<C>()
#define ti typeid(T)
  // members of const collections
  OB("const begin()",same<R(cc.begin()),CIt>()&&same<R(cc.end()),CIt>());
  OB("cbegin()",same<R(cc.cbegin()),CIt>()&&same<R(cc.cend()),CIt>()&&same<R(mc.cbegin()),CIt>()&&same<R(mc.cend()),CIt>());
  OB("const begin(type)",same<R(cc.begin(ti)),CLB>()&&same<R(cc.end(ti)),CLB>());
  OB("cbegin(type)",same<R(cc.cbegin(ti)),CLB>()&&same<R(cc.cend(ti)),CLB>()&&same<R(mc.cbegin(ti)),CLB>()&&same<R(mc.cend(ti)),CLB>());
  OB("const begin<T>()",same<R(cc.template begin<T>()),CLI>()&&same<R(cc.template end<T>()),CLI>());
  OB("cbegin<T>()",same<R(cc.template cbegin<T>()),CLI>()&&same<R(cc.template cend<T>()),CLI>()&&same<R(mc.template cbegin<T>()),CLI>()&&same<R(mc.template cend<T>()),CLI>());
  OB("const segment(type)",same<R(cc.segment(ti)),CBS>());
  OB("const segment<T>()",same<R(cc.template segment<T>()),CS>());
  OB("const segment_traversal()",same<R(cc.segment_traversal()),CST>());
  // members of mutable collections are mutable
  OB("mutable access",same<R(mc.begin()),It>()&&same<R(mc.end()),It>()&&same<R(mc.begin(ti)),LB>()&&same<R(mc.end(ti)),LB>()&&same<R(mc.template begin<T>()),LI>()&&same<R(mc.template end<T>()),LI>()&&same<R(mc.segment(ti)),BS>()&&same<R(mc.template segment<T>()),S>()&&same<R(mc.segment_traversal()),ST>());
  // what iterators refer to
  OB("*const_iterator",same<R(*clv<CIt>()),const V&>()&&same<R(*lv<CIt>()),const V&>()&&std::is_const<typename std::remove_pointer<R(lv<CIt>().operator->())>::type>::value);
  OB("*const_local_base_iterator",same<R(*clv<CLB>()),const V&>()&&same<R(clv<CLB>()[0]),const V&>()&&std::is_const<typename std::remove_pointer<R(lv<CLB>().operator->())>::type>::value);
  OB("*const_local_iterator<T>",same<R(*clv<CLI>()),const T&>()&&same<R(clv<CLI>()[0]),const T&>()&&std::is_const<typename std::remove_pointer<R(lv<CLI>().operator->())>::type>::value);
  OB("iterator_traits of const iterators",same<typename std::iterator_traits<CIt>::reference,const V&>()&&same<typename std::iterator_traits<CLB>::reference,const V&>()&&same<typename std::iterator_traits<CLI>::reference,const T&>()&&same<typename std::iterator_traits<CIt>::pointer,const V*>()&&same<typename std::iterator_traits<CLB>::pointer,const V*>()&&same<typename std::iterator_traits<CLI>::pointer,const T*>());
  OB("*iterator is mutable",same<R(*lv<It>()),V&>()&&same<R(*clv<It>()),V&>()&&same<R(*clv<LB>()),V&>()&&same<R(*clv<LI>()),T&>());
  OB("const iterator arithmetic",same<R(lv<CIt>()++),CIt>()&&same<R(++lv<CIt>()),CIt&>()&&same<R(clv<CLB>()+1),CLB>()&&same<R(clv<CLB>()-1),CLB>()&&same<R(1+clv<CLB>()),CLB>()&&same<R(clv<CLI>()+1),CLI>()&&same<R(clv<CLI>()-1),CLI>()&&same<R(++lv<CLB>()),CLB&>()&&same<R(lv<CLI>()+=1),CLI&>());
  // const segment views
#define VIEW(X,base_t,typed_t) \
  OB(#X " begin/end",same<R(clv<X>().begin()),base_t>()&&same<R(clv<X>().end()),base_t>()&&same<R(clv<X>().cbegin()),base_t>()&&same<R(clv<X>().cend()),base_t>())
  VIEW(CBS,CLB,CLI);VIEW(CS,CLI,CLI);VIEW(CST,CBSI,CBSI);
  VIEW(BS,CLB,CLI);VIEW(S,CLI,CLI);VIEW(ST,CBSI,CBSI);
  OB("const_base_segment_info typed",same<R(clv<CBS>().template begin<T>()),CLI>()&&same<R(clv<CBS>().template end<T>()),CLI>()&&same<R(clv<CBS>().template cbegin<T>()),CLI>()&&same<R(clv<CBS>().template cend<T>()),CLI>()&&same<R(clv<BS>().template begin<T>()),CLI>()&&same<R(clv<BS>().template end<T>()),CLI>()&&same<R(lv<BS>().template cbegin<T>()),CLI>()&&same<R(lv<BS>().template cend<T>()),CLI>());
  OB("non-const const_base_segment_info",same<R(lv<CBS>().begin()),CLB>()&&same<R(lv<CBS>().end()),CLB>()&&same<R(lv<CS>().begin()),CLI>()&&same<R(lv<CS>().end()),CLI>()&&same<R(lv<CST>().begin()),CBSI>()&&same<R(lv<CST>().end()),CBSI>()&&same<R(lv<CBS>().template begin<T>()),CLI>()&&same<R(lv<CBS>().template end<T>()),CLI>());
  OB("c-members of mutable views",same<R(lv<BS>().cbegin()),CLB>()&&same<R(lv<BS>().cend()),CLB>()&&same<R(lv<S>().cbegin()),CLI>()&&same<R(lv<S>().cend()),CLI>()&&same<R(lv<ST>().cbegin()),CBSI>()&&same<R(lv<ST>().cend()),CBSI>());
  OB("mutable views",same<R(lv<BS>().begin()),LB>()&&same<R(lv<BS>().end()),LB>()&&same<R(lv<S>().begin()),LI>()&&same<R(lv<S>().end()),LI>()&&same<R(lv<ST>().begin()),BSI>()&&same<R(lv<ST>().end()),BSI>()&&same<R(lv<BS>().template begin<T>()),LI>()&&same<R(lv<BS>().template end<T>()),LI>());
  OB("*const_base_segment_info_iterator",same<typename std::remove_cv<R(*clv<CBSI>())>::type,CBS>()&&same<typename std::remove_cv<R(*clv<BSI>())>::type,BS>());
  OB("const_base_segment_info_iterator->",!std::is_same<R(clv<CBSI>()->begin()),LB>::value&&!std::is_same<R(clv<CBSI>()->template begin<T>()),LI>::value&&same<R(clv<CBSI>()->begin()),CLB>()&&same<R(clv<CBSI>()->template begin<T>()),CLI>());
  OB("type_info() is const",same<R(clv<CBS>().type_info()),const std::type_info&>()&&same<R(clv<BS>().type_info()),const std::type_info&>());
  // no way from const to mutable
  OB("const_iterator -> iterator",none<CIt,It>());
  OB("const_local_base_iterator -> local_base_iterator",none<CLB,LB>());
  OB("const_local_base_iterator -> local_iterator<T>",none<CLB,LI>());
  OB("const_local_iterator<T> -> local_iterator<T>",none<CLI,LI>());
  OB("const_local_iterator<T> -> local_base_iterator",none<CLI,LB>());
  OB("const_base_segment_info -> base_segment_info",none<CBS,BS>());
  OB("const_segment_info<T> -> segment_info<T>",none<CS,S>());
  OB("const_base_segment_info_iterator -> base_segment_info_iterator",none<CBSI,BSI>());
  OB("const_segment_traversal_info -> segment_traversal_info",none<CST,ST>());
  OB("const views to mutable iterators",none<CIt,LB>()&&none<CIt,LI>()&&none<CBS,LB>()&&none<CS,LI>()&&none<CBSI,BS>());
  OB("const view to pointer",!std::is_convertible<CIt,V*>::value&&!std::is_convertible<CLB,V*>::value&&!std::is_convertible<CLI,T*>::value&&!std::is_constructible<T*,CLI>::value&&!std::is_constructible<V*,CLB>::value);
  // the way from mutable to const
  OB("iterator -> const_iterator",conv<It,CIt>());
  OB("local_base_iterator -> const_local_base_iterator",conv<LB,CLB>());
  OB("local_iterator<T> -> const_local_iterator<T>",conv<LI,CLI>());
  OB("local_base_iterator -> local_iterator<T>",expl<LB,LI>()&&expl<LB,CLI>()&&expl<CLB,CLI>());
  OB("local_iterator<T> -> local_base_iterator",expl<LI,LB>()&&expl<LI,CLB>()&&expl<CLI,CLB>());
  OB("base_segment_info -> const_base_segment_info",conv<BS,CBS>());
  OB("segment_info<T> -> const_segment_info<T>",conv<S,CS>());
  OB("base_segment_info_iterator -> const_base_segment_info_iterator",conv<BSI,CBSI>());
  OB("segment_traversal_info -> const_segment_traversal_info",conv<ST,CST>());
  // mixed comparison
  OB("mixed comparison",same<R(clv<It>()==clv<CIt>()),bool>()&&same<R(clv<CIt>()!=clv<It>()),bool>()&&same<R(clv<LB>()==clv<CLB>()),bool>()&&same<R(clv<LI>()==clv<CLI>()),bool>());
};
template struct chk<coll,D1>;
template struct chk<coll,D2>;
// modifiers need a mutable collection
DETECT(can_clear,lv<V>().clear())
DETECT(can_clear_i,lv<V>().clear(typeid(int)))
DETECT(can_clear_t,lv<V>().template clear<D1>())
DETECT(can_insert,lv<V>().insert(std::declval<D1>()))
DETECT(can_emplace,lv<V>().template emplace<D1>(0))
DETECT(can_reg,lv<V>().template register_types<D1>())
DETECT(can_reserve,lv<V>().reserve(1u))
DETECT(can_reserve_i,lv<V>().reserve(typeid(int),1u))
DETECT(can_reserve_t,lv<V>().template reserve<D1>(1u))
DETECT(can_shrink,lv<V>().shrink_to_fit())
DETECT(can_shrink_i,lv<V>().shrink_to_fit(typeid(int)))
DETECT(can_shrink_t,lv<V>().template shrink_to_fit<D1>())
DETECT(can_erase,lv<V>().erase(lv<V>().begin()))
DETECT(can_erase_c,lv<V>().erase(lv<V>().cbegin()))
DETECT(can_swap,lv<V>().swap(lv<coll>()))
DETECT(can_assign,lv<V>()=lv<coll>())
#define MOD(f) OB(#f " on a const collection",!f<const coll>()); OB(#f " on a collection",f<coll>())
MOD(can_clear);MOD(can_clear_i);MOD(can_clear_t);MOD(can_insert);MOD(can_emplace);MOD(can_reg);MOD(can_reserve);MOD(can_reserve_i);MOD(can_reserve_t);
MOD(can_shrink);MOD(can_shrink_i);MOD(can_shrink_t);MOD(can_erase);MOD(can_erase_c);MOD(can_swap);MOD(can_assign);
// algorithms over const ranges hand over const references only
template<class It> struct only_const{
  template<class T> bool operator()(T&& x)const{OB("algorithm over const iterators hands over const lvalues",std::is_lvalue_reference<T>::value&&std::is_const<typename std::remove_reference<T>::type>::value);return true;}
  template<class T,class U> bool operator()(T&& x,U&& y)const{operator()(std::forward<T>(x));operator()(std::forward<U>(y));return true;}
};
template<class It> struct only_mut{
  template<class T> bool operator()(T&& x)const{OB("algorithm over mutable iterators hands over mutable lvalues",std::is_lvalue_reference<T>::value&&!std::is_const<typename std::remove_reference<T>::type>::value);return true;}
};
struct sink{using iterator_category=std::output_iterator_tag;using value_type=void;using difference_type=void;using pointer=void;using reference=void;
    struct prx{template<class T> void operator=(T&& x){OB("copying over const iterators reads const elements",std::is_const<typename std::remove_reference<T>::type>::value||std::is_same<T,bool>::value);}};
    prx operator*(){return {};} sink& operator++(){return *this;} sink operator++(int){return *this;}};
template<class... Ts> void algs(const coll& c,coll& m){
  namespace pc=boost::poly_collection; using CIt=coll::const_iterator; only_const<CIt> p; only_mut<coll::iterator> q;
  CIt a=c.begin(),b=c.end(); const base* out[1]; (void)out;
  sink o;
  pc::all_of<Ts...>(a,b,p);pc::any_of<Ts...>(a,b,p);pc::none_of<Ts...>(a,b,p);pc::for_each<Ts...>(a,b,p);pc::for_each_n<Ts...>(a,1,p);
  pc::find_if<Ts...>(a,b,p);pc::find_if_not<Ts...>(a,b,p);pc::adjacent_find<Ts...>(a,b,p);pc::count_if<Ts...>(a,b,p);
  pc::copy<Ts...>(a,b,o);pc::copy_n<Ts...>(a,1,o);pc::copy_if<Ts...>(a,b,o,p);pc::transform<Ts...>(a,b,o,p);pc::remove_copy_if<Ts...>(a,b,o,p);pc::unique_copy<Ts...>(a,b,o,p);
  pc::rotate_copy<Ts...>(a,a,b,o);pc::is_partitioned<Ts...>(a,b,p);pc::partition_copy<Ts...>(a,b,o,o,p);pc::partition_point<Ts...>(a,b,p);
  pc::mismatch<Ts...>(a,b,a,p);pc::equal<Ts...>(a,b,a,b,p);pc::is_permutation<Ts...>(a,b,a,b,p);pc::search<Ts...>(a,b,a,b,p);pc::find_end<Ts...>(a,b,a,b,p);pc::find_first_of<Ts...>(a,b,a,b,p);
  pc::for_each<Ts...>(m.begin(),m.end(),q);pc::all_of<Ts...>(m.begin(),m.end(),q);pc::for_each_n<Ts...>(m.begin(),1,q);pc::find_if<Ts...>(m.begin(),m.end(),q);pc::count_if<Ts...>(m.begin(),m.end(),q);pc::partition_point<Ts...>(m.begin(),m.end(),q);
  OB("find over const iterators",same<decltype(pc::find_if<Ts...>(a,b,p)),CIt>()&&same<decltype(pc::for_each_n<Ts...>(a,1,p)),CIt>()&&same<decltype(pc::partition_point<Ts...>(a,b,p)),CIt>()&&same<decltype(pc::search<Ts...>(a,b,a,b,p)),CIt>());
}
template void algs<>(const coll&,coll&);
template void algs<D1>(const coll&,coll&);
template void algs<D2,D1>(const coll&,coll&);
