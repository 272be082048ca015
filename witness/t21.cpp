// C21: operations instantiate for every client type that meets the documented
// requirements, and use nothing of it beyond them: everything else is deleted.
#include "ob.hpp"
#include <boost/poly_collection/algorithm.hpp>
#include <iterator>
#include <memory>
#include <vector>
#include <random>
#define WIT(...) template void __VA_ARGS__
namespace pc=boost::poly_collection;
namespace hostile{
#if VW_KIND==0
#define BASE : ::base
#else
#define BASE
#endif
#define CALL int operator()(int)const{return 0;}
#define NOOPS(X) \
  void operator&()const=delete; \
  template<class T> void operator,(T&&)const=delete; \
  template<class T> friend void operator,(T&&,const X&)=delete; \
  void operator!()const=delete; template<class T> void operator&&(T&&)const=delete; template<class T> void operator||(T&&)const=delete; \
  static void* operator new(std::size_t)=delete; static void* operator new(std::size_t,void*)=delete; static void* operator new[](std::size_t)=delete; \
  static void operator delete(void*)
#define EQ(X) friend bool operator==(const X&,const X&){return true;} friend bool operator!=(const X&,const X&){return false;}
// element types
#define NODEL template<class T> friend void swap(T&,T&)=delete
struct ops1 BASE{explicit ops1(int){} ops1(const ops1&)=default;ops1(ops1&&)=default;ops1& operator=(const ops1&)=default;ops1& operator=(ops1&&)=default;~ops1(){} EQ(ops1) CALL
  void operator&()const=delete; template<class T> void operator,(T&&)const=delete; template<class T> friend void operator,(T&&,const ops1&)=delete;};
struct ops2 final BASE{explicit ops2(int){} EQ(ops2) CALL
  void operator&()const=delete; void operator!()const=delete; template<class T> void operator,(T&&)const=delete; template<class T> friend void operator,(T&&,const ops2&)=delete;};
struct news BASE{explicit news(int){} EQ(news) CALL
  static void* operator new(std::size_t)=delete; static void* operator new(std::size_t,void*)=delete; static void* operator new[](std::size_t)=delete;};
struct moveonly final BASE{explicit moveonly(int){} moveonly(moveonly&&)=default;moveonly& operator=(moveonly&&)=default;CALL void operator&()const=delete;};
struct noassign BASE{explicit noassign(int){} noassign(const noassign&)noexcept{} noassign& operator=(const noassign&)=delete;CALL void operator&()const=delete;EQ(noassign)};
struct constmem BASE{explicit constmem(int){} const int c=0; CALL EQ(constmem)};
// a greedy constructor is never used for anything but what the client asked for
struct greedy BASE{
  template<class... A> explicit greedy(A&&...){static_assert(sizeof...(A)==1&&std::is_same<std::tuple<A...>,std::tuple<int>>::value,"VW:a greedy constructor is used only with the arguments given");}
  greedy(const greedy&)=default;greedy(greedy&&)=default;greedy& operator=(const greedy&)=default;greedy& operator=(greedy&&)=default;
  greedy(greedy&)=delete;
  CALL EQ(greedy)};
struct ilist BASE{explicit ilist(int){} ilist(std::initializer_list<ilist>)=delete; template<class T> ilist(std::initializer_list<T>)=delete; ilist(const ilist&)=default;ilist(ilist&&)=default;ilist& operator=(const ilist&)=default;ilist& operator=(ilist&&)=default; CALL EQ(ilist)};
struct eqt BASE{explicit eqt(int){} CALL template<class T> friend bool operator==(const eqt&,const T&){return true;}};
struct over_aligned BASE{explicit over_aligned(int){} CALL EQ(over_aligned) alignas(64) char c[64];};
// results of predicates: contextually convertible to bool, nothing else
struct boolish{explicit operator bool()const{return true;} template<class T> void operator&&(T&&)const=delete;template<class T> void operator||(T&&)const=delete;template<class T> void operator,(T&&)const=delete;};
template<class R> struct fn{
  fn(const fn&)=default; fn& operator=(const fn&)=delete; void operator&()const=delete;template<class T> void operator,(T&&)const=delete;
  explicit fn(int){}
  template<class T> R operator()(T&)const{return R{};}
  template<class T,class U> R operator()(T&,U&)const{return R{};}};
// function objects whose call operator is not const and which cannot be assigned
template<class R> struct mfn{
  mfn(const mfn&)=default; mfn& operator=(const mfn&)=delete; void operator&()const=delete;template<class T> void operator,(T&&)const=delete;
  explicit mfn(int){}
  template<class T> R operator()(T&){return R{};}};
// for_each and for_each_n need no more than a move constructible function object
struct monce{explicit monce(int){} monce(monce&&)=default; void operator&()const=delete; template<class T> void operator()(T&){} };
// iterators: nothing beyond their category
struct out{
  using iterator_category=std::output_iterator_tag;using value_type=void;using difference_type=void;using pointer=void;using reference=void;
  struct prx{template<class T> void operator=(T&&)const{} template<class T> void operator,(T&&)const=delete;};
  explicit out(int){} out(const out&)=default;out& operator=(const out&)=default;
  prx operator*()const{return {};} out& operator++(){return *this;} out operator++(int){return *this;}
  void operator&()const=delete;template<class T> void operator,(T&&)const=delete;template<class T> friend void operator,(T&&,const out&)=delete;
  friend void operator==(const out&,const out&)=delete;
};
template<class T,class Cat,class Ref=T&> struct in{
  using iterator_category=Cat;using value_type=typename std::remove_const<T>::type;using difference_type=std::ptrdiff_t;using pointer=T*;using reference=Ref;
  in();explicit in(int);in(const in&)=default;in& operator=(const in&)=default;
  Ref operator*()const;pointer operator->()const;in& operator++();in operator++(int);
  friend bool operator==(const in&,const in&){return true;} friend bool operator!=(const in&,const in&){return false;}
  void operator&()const=delete;template<class X> void operator,(X&&)const=delete;template<class X> friend void operator,(X&&,const in&)=delete;
};
// allocators: the minimal interface, no default constructor
template<class T> struct minal{
  using value_type=T; explicit minal(int){} minal(const minal&)=default; template<class U> minal(const minal<U>&){}
  T* allocate(std::size_t n){return std::allocator<T>().allocate(n);} void deallocate(T* p,std::size_t n){std::allocator<T>().deallocate(p,n);}
  template<class U> friend bool operator==(const minal&,const minal<U>&){return true;} template<class U> friend bool operator!=(const minal&,const minal<U>&){return false;}
};
} // hostile
using namespace hostile;
template<class T,bool=std::is_copy_constructible<T>::value> struct copying{
  template<class C> static void f(C& c,const T& x,T& y){
    c.insert(x);c.insert(y);c.insert(c.cbegin(),x);c.insert(c.begin(),y);c.insert(c.begin(typeid(T)),x);c.insert(c.cbegin(typeid(T)),y);
    c.insert(c.template begin<T>(),x);c.insert(c.template cbegin<T>(),y);
    c.template emplace<T>(x);c.template emplace_hint<T>(c.cbegin(),x);c.template emplace_pos<T>(c.begin(typeid(T)),x);c.emplace_pos(c.template begin<T>(),x);
    using I=in<T,std::input_iterator_tag>;using F=in<const T,std::forward_iterator_tag>;using P=in<T,std::input_iterator_tag,T>;
    c.insert(I(0),I(0));c.insert(F(0),F(0));c.insert(P(0),P(0));
    c.insert(c.cbegin(),I(0),I(0));c.insert(c.begin(),F(0),F(0));c.insert(c.cbegin(),P(0),P(0));
    c.insert(c.begin(typeid(T)),I(0),I(0));c.insert(c.cbegin(typeid(T)),F(0),F(0));c.insert(c.cbegin(typeid(T)),P(0),P(0));
    c.insert(c.template begin<T>(),I(0),I(0));c.insert(c.template cbegin<T>(),F(0),F(0));c.insert(c.template cbegin<T>(),P(0),P(0));
    c.insert(c.begin(),c.end());c.insert(c.cbegin(),c.begin(),c.end());c.insert(c.template begin<T>(),c.template end<T>());
    C d(I(0),I(0),c.get_allocator());C e(F(0),F(0),c.get_allocator());
  }};
template<class T> struct copying<T,false>{template<class C> static void f(C&,const T&,T&){}};
template<class C,class T> void ops(C& c,C& d,const T& x,T& y){
  const C& k=c;
  c.template register_types<T>();(void)k.template is_registered<T>();(void)k.is_registered(typeid(T));
  c.insert(T(1));c.insert(std::move(y));c.insert(c.begin(),T(1));c.insert(c.cbegin(),std::move(y));c.insert(c.begin(typeid(T)),T(1));c.insert(c.cbegin(typeid(T)),T(1));c.insert(c.template begin<T>(),T(1));c.insert(c.template cbegin<T>(),T(1));
  c.template emplace<T>(1);c.template emplace_hint<T>(c.begin(),1);c.template emplace_pos<T>(c.begin(typeid(T)),1);c.template emplace_pos<T>(c.cbegin(typeid(T)),1);c.emplace_pos(c.template begin<T>(),1);c.emplace_pos(c.template cbegin<T>(),1);
  using M=in<T,std::input_iterator_tag,T&&>;
  c.insert(M(0),M(0));c.insert(c.cbegin(),M(0),M(0));c.insert(c.cbegin(typeid(T)),M(0),M(0));c.insert(c.template cbegin<T>(),M(0),M(0));
  copying<T>::f(c,x,y);
  c.reserve(1);c.reserve(typeid(T),1);c.template reserve<T>(1);c.shrink_to_fit();c.shrink_to_fit(typeid(T));c.template shrink_to_fit<T>();
  (void)k.template capacity<T>();(void)k.template max_size<T>();(void)k.template size<T>();(void)k.template empty<T>();(void)k.size();(void)k.empty();(void)k.capacity(typeid(T));
  c.erase(c.begin());c.erase(c.cbegin(typeid(T)));c.erase(c.template cbegin<T>());c.erase(c.begin(),c.end());c.erase(c.begin(typeid(T)),c.end(typeid(T)));c.erase(c.template begin<T>(),c.template end<T>());
  c.template clear<T>();c.clear(typeid(T));c.clear();c.swap(d);using std::swap;swap(c,d);c=d;c=std::move(d);
  C e(c),f(std::move(c)),g(f,f.get_allocator()),h(std::move(f),g.get_allocator());(void)(g==h);(void)(g!=h);
  auto li=h.template begin<T>();auto cli=k.template begin<T>();typename C::local_base_iterator lb{li};typename C::const_local_base_iterator clb{cli};
  typename C::template local_iterator<T> l2{lb};typename C::template const_local_iterator<T> cl2{clb};
  (void)*li;(void)*cli;(void)li[0];(void)(li==l2);(void)(cli!=cl2);(void)(li<l2);(void)(li-l2);++li;--li;li+=1;(void)(li+1);(void)(*lb);(void)*h.begin();
  for(auto&& s:h.segment_traversal()){(void)s.type_info();(void)*s.template begin<T>();for(auto&& v:s)(void)v;}
  for(auto&& s:k.segment_traversal()){(void)*s.template begin<T>();}
  for(auto&& v:h.template segment<T>())(void)v;
}
template<class T> using C_=coll;
#define T1(T) WIT(ops<coll,T>(coll&,coll&,const T&,T&));
T1(ops1)T1(ops2)T1(news)T1(moveonly)T1(noassign)T1(constmem)T1(ilist)T1(eqt)T1(over_aligned)
T1(greedy)
using mcoll=coll_al<minal<coll::value_type>>;
#define T2(T) WIT(ops<mcoll,T>(mcoll&,mcoll&,const T&,T&));
T2(ops1)T2(D2)
// algorithms
template<class... Ts> void algs(const coll& c,coll& m){
  const fn<boolish> p(0);fn<bool> p2(0);mfn<boolish> mp(0);mfn<bool> mb(0);out o(0);
  using I=in<int,std::input_iterator_tag>;using F=in<const int,std::forward_iterator_tag>;I i(0);F f(0);
  auto a=c.begin(),b=c.end();auto x=m.begin(),y=m.end();
  pc::all_of<Ts...>(a,b,p);pc::any_of<Ts...>(a,b,p);pc::none_of<Ts...>(a,b,p);pc::all_of<Ts...>(x,y,mp);pc::any_of<Ts...>(x,y,mp);pc::none_of<Ts...>(x,y,mp);
  pc::for_each<Ts...>(a,b,p);pc::for_each<Ts...>(x,y,mp);pc::for_each<Ts...>(x,y,monce(0));pc::for_each_n<Ts...>(x,1,monce(0));
#define N(S) {S n=1;pc::for_each_n<Ts...>(a,n,p);pc::for_each_n<Ts...>(x,n,mp);pc::copy_n<Ts...>(a,n,o);pc::search_n<Ts...>(a,b,n,1,p);}
  N(short)N(unsigned char)N(int)N(unsigned)N(long)N(unsigned long)N(long long)N(signed char)N(char)
  pc::find_if<Ts...>(a,b,p);pc::find_if_not<Ts...>(a,b,p);pc::find_if<Ts...>(x,y,mp);pc::find_if_not<Ts...>(x,y,mp);
  pc::find_first_of<Ts...>(a,b,f,f,p);pc::adjacent_find<Ts...>(a,b,p);pc::adjacent_find<Ts...>(x,y,p);
  pc::count_if<Ts...>(a,b,p);pc::count_if<Ts...>(x,y,mp);
  pc::mismatch<Ts...>(a,b,i,p);pc::mismatch<Ts...>(a,b,i,i,p);pc::equal<Ts...>(a,b,i,p);pc::equal<Ts...>(a,b,i,i,p);
  pc::is_permutation<Ts...>(a,b,a,p);pc::is_permutation<Ts...>(a,b,a,b,p);
  pc::search<Ts...>(a,b,f,f,p);pc::find_end<Ts...>(a,b,f,f,p);
  pc::copy<Ts...>(a,b,o);pc::copy_if<Ts...>(a,b,o,p);pc::copy_if<Ts...>(x,y,o,mp);pc::move<Ts...>(x,y,o);
  pc::transform<Ts...>(a,b,o,p);pc::transform<Ts...>(x,y,o,mb);pc::transform<Ts...>(a,b,i,o,p);
  pc::replace_copy_if<Ts...>(a,b,o,p,1);pc::replace_copy_if<Ts...>(x,y,o,mp,1);
  pc::remove_copy_if<Ts...>(a,b,o,p);pc::remove_copy_if<Ts...>(x,y,o,mp);pc::unique_copy<Ts...>(a,b,o,p);
  pc::rotate_copy<Ts...>(a,a,b,o);std::minstd_rand g;
  pc::sample<Ts...>(a,b,o,1,g);pc::sample<Ts...>(a,b,o,1l,std::minstd_rand());pc::sample<Ts...>(a,b,o,short(1),g);pc::sample<Ts...>(a,b,o,1u,g);
  pc::is_partitioned<Ts...>(a,b,p);pc::is_partitioned<Ts...>(x,y,mp);pc::partition_copy<Ts...>(a,b,o,o,p);pc::partition_copy<Ts...>(x,y,o,o,mp);pc::partition_point<Ts...>(a,b,p);pc::partition_point<Ts...>(x,y,p);
}
#define A1(...) WIT(algs<__VA_ARGS__>(const coll&,coll&));
A1()A1(D1)A1(ops1,ops2,D2)A1(moveonly,noassign,news)A1(ops2,greedy,eqt,over_aligned)
#if VW_KIND==0
#define BT base,
#else
#define BT
#endif
// comparison through a value
struct val{template<class T> friend bool operator==(const T&,const val&){return true;} template<class T> friend bool operator==(const val&,const T&){return true;} friend bool operator==(const val&,const val&){return true;} void operator&()const=delete;template<class T> void operator,(T&&)const=delete;};
template<class... Ts> void valgs(const coll& c){
  auto a=c.begin(),b=c.end();val v;out o(0);using I=in<val,std::input_iterator_tag>;using F=in<const val,std::forward_iterator_tag>;I i(0);F f(0);
  pc::find<Ts...>(a,b,v);pc::count<Ts...>(a,b,v);pc::remove_copy<Ts...>(a,b,o,v);pc::replace_copy<Ts...>(a,b,o,v,v);pc::search_n<Ts...>(a,b,1u,v);
  pc::find_first_of<Ts...>(a,b,f,f);pc::mismatch<Ts...>(a,b,i);pc::mismatch<Ts...>(a,b,i,i);pc::equal<Ts...>(a,b,i);pc::equal<Ts...>(a,b,i,i);pc::search<Ts...>(a,b,f,f);pc::find_end<Ts...>(a,b,f,f);
}
WIT(valgs<>(const coll&));WIT(valgs<ops1,ops2,D1>(const coll&));
