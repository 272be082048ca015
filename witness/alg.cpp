// Witness program for the algorithms; never run.  The function objects, the
// output and the second range are opaque: the analysis observes their use.
#define VW_ALG
#include "core.cpp"
#include <random>
#include <tuple>
namespace va{
struct r1{};
struct e2{};
struct val{};
template<class T> bool operator==(const T&,const val&);
template<class T> bool operator==(const T&,const e2&);
// elements compared with each other
template<class T> struct elt:std::false_type{};
template<> struct elt<vt::D1>:std::true_type{};
template<> struct elt<vt::D2>:std::true_type{};
template<> struct elt<vt::D3>:std::true_type{};
template<> struct elt<vt::base>:std::true_type{};
#if VW_KIND==1
template<class S> struct elt<boost::poly_collection::detail::callable_wrapper<S>>:std::true_type{};
#elif VW_KIND==2
template<class C,class T> struct elt<boost::type_erasure::any<C,T>>:std::true_type{};
#endif
struct pred{template<class T> bool operator()(T&&)const;};
struct pred2{template<class T,class U> bool operator()(T&&,U&&)const;};
struct fun{template<class T> void operator()(T&&)const;};
struct op1{template<class T> r1 operator()(T&&)const;};
struct op2{template<class T,class U> r1 operator()(T&&,U&&)const;};
struct gen{};
struct prx{template<class T> void operator=(T&&)const;long pos;long id;};
struct out{
  using iterator_category=std::output_iterator_tag;using value_type=void;using difference_type=void;using pointer=void;using reference=void;
  prx operator*()const{return prx{pos,id};}
  out& operator++(){++pos;return *this;}
  out operator++(int){out r(*this);++pos;return r;}
  long pos,id;
};
struct in{
  using iterator_category=std::random_access_iterator_tag;using value_type=e2;using difference_type=std::ptrdiff_t;using pointer=const e2*;using reference=const e2&;
  const e2& operator*()const;
  in& operator++(){++pos;return *this;}
  in operator++(int){in r(*this);++pos;return r;}
  friend bool operator==(const in& a,const in& b){return a.pos==b.pos;}
  friend bool operator!=(const in& a,const in& b){return a.pos!=b.pos;}
  friend long operator-(const in& a,const in& b){return a.pos-b.pos;}
  friend in operator+(in a,long n){a.pos+=n;return a;}
  friend in operator+(long n,in a){a.pos+=n;return a;}
  friend in operator-(in a,long n){a.pos-=n;return a;}
  friend bool operator<(const in& a,const in& b){return a.pos<b.pos;}
  friend bool operator>(const in& a,const in& b){return a.pos>b.pos;}
  friend bool operator<=(const in& a,const in& b){return a.pos<=b.pos;}
  friend bool operator>=(const in& a,const in& b){return a.pos>=b.pos;}
  const e2& operator[](long n)const{return *(*this+n);}
  const e2* operator->()const{return &**this;}
  in& operator--(){--pos;return *this;}
  in operator--(int){in r(*this);--pos;return r;}
  in& operator-=(long n){pos-=n;return *this;}
  in& operator+=(long n){pos+=n;return *this;}
  long pos;
};
}
#define VW_EQ template<class T,class U,typename std::enable_if<va::elt<T>::value&&va::elt<U>::value>::type* =nullptr> bool operator==(const T&,const U&);
namespace vt{VW_EQ}
#if VW_KIND==1
namespace boost{namespace poly_collection{namespace detail{
template<class S> bool operator==(const callable_wrapper<S>&,const callable_wrapper<S>&);
}}}
#elif VW_KIND==2
namespace boost{namespace type_erasure{
template<class C,class T> bool operator==(const any<C,T>&,const any<C,T>&);
}}
#endif
namespace pc=boost::poly_collection;
using namespace va;
template<class C,class... Ts> struct algs{
  using It=typename C::iterator;using CIt=typename C::const_iterator;
  static bool all_of(CIt a,CIt b,pred p){return pc::all_of<Ts...>(a,b,p);}
  static bool any_of(CIt a,CIt b,pred p){return pc::any_of<Ts...>(a,b,p);}
  static bool none_of(CIt a,CIt b,pred p){return pc::none_of<Ts...>(a,b,p);}
  static void for_each(CIt a,CIt b,fun f){pc::for_each<Ts...>(a,b,f);}
  static void for_each_m(It a,It b,fun f){pc::for_each<Ts...>(a,b,f);}
  static CIt for_each_n(CIt a,long n,fun f){return pc::for_each_n<Ts...>(a,n,f);}
  static CIt for_each_nb(CIt a,unsigned char n,fun f){return pc::for_each_n<Ts...>(a,n,f);}
  static CIt find(CIt a,CIt b,const val& v){return pc::find<Ts...>(a,b,v);}
  static CIt find_if(CIt a,CIt b,pred p){return pc::find_if<Ts...>(a,b,p);}
  static CIt find_if_not(CIt a,CIt b,pred p){return pc::find_if_not<Ts...>(a,b,p);}
  static CIt find_first_of(CIt a,CIt b,in f,in l,pred2 p){return pc::find_first_of<Ts...>(a,b,f,l,p);}
  static CIt find_first_of_e(CIt a,CIt b,in f,in l){return pc::find_first_of<Ts...>(a,b,f,l);}
  static CIt adjacent_find(CIt a,CIt b,pred2 p){return pc::adjacent_find<Ts...>(a,b,p);}
  static std::ptrdiff_t count(CIt a,CIt b,const val& v){return pc::count<Ts...>(a,b,v);}
  static std::ptrdiff_t count_if(CIt a,CIt b,pred p){return pc::count_if<Ts...>(a,b,p);}
  static std::pair<CIt,in> mismatch(CIt a,CIt b,in f,pred2 p){return pc::mismatch<Ts...>(a,b,f,p);}
  static std::pair<CIt,in> mismatch_e(CIt a,CIt b,in f){return pc::mismatch<Ts...>(a,b,f);}
  static std::pair<CIt,in> mismatch_l(CIt a,CIt b,in f,in l,pred2 p){return pc::mismatch<Ts...>(a,b,f,l,p);}
  static bool equal(CIt a,CIt b,in f,pred2 p){return pc::equal<Ts...>(a,b,f,p);}
  static bool equal_e(CIt a,CIt b,in f){return pc::equal<Ts...>(a,b,f);}
  static bool equal_l(CIt a,CIt b,in f,in l,pred2 p){return pc::equal<Ts...>(a,b,f,l,p);}
  static bool equal_le(CIt a,CIt b,in f,in l){return pc::equal<Ts...>(a,b,f,l);}
  static bool is_permutation(CIt a,CIt b,in f,pred2 p){return pc::is_permutation<Ts...>(a,b,f,p);}
  static bool is_permutation_l(CIt a,CIt b,in f,in l,pred2 p){return pc::is_permutation<Ts...>(a,b,f,l,p);}
  static CIt adjacent_find_e(CIt a,CIt b){return pc::adjacent_find<Ts...>(a,b);}
  static out unique_copy_e(CIt a,CIt b,out o){return pc::unique_copy<Ts...>(a,b,o);}
  static bool is_permutation_e(CIt a,CIt b,in f){return pc::is_permutation<Ts...>(a,b,f);}
  static bool is_permutation_le(CIt a,CIt b,in f,in l){return pc::is_permutation<Ts...>(a,b,f,l);}
  static std::pair<CIt,in> mismatch_le(CIt a,CIt b,in f,in l){return pc::mismatch<Ts...>(a,b,f,l);}
  static CIt search_e(CIt a,CIt b,in f,in l){return pc::search<Ts...>(a,b,f,l);}
  static CIt find_end_e(CIt a,CIt b,in f,in l){return pc::find_end<Ts...>(a,b,f,l);}
  static It find_if_m(It a,It b,pred p){return pc::find_if<Ts...>(a,b,p);}
  static It adjacent_find_m(It a,It b,pred2 p){return pc::adjacent_find<Ts...>(a,b,p);}
  static It for_each_nm(It a,long n,fun f){return pc::for_each_n<Ts...>(a,n,f);}
  static std::pair<It,in> mismatch_m(It a,It b,in f,pred2 p){return pc::mismatch<Ts...>(a,b,f,p);}
  static out transform_m(It a,It b,out o,op1 p){return pc::transform<Ts...>(a,b,o,p);}
  static CIt search(CIt a,CIt b,in f,in l,pred2 p){return pc::search<Ts...>(a,b,f,l,p);}
  static CIt find_end(CIt a,CIt b,in f,in l,pred2 p){return pc::find_end<Ts...>(a,b,f,l,p);}
  static CIt search_n(CIt a,CIt b,long n,const val& v,pred2 p){return pc::search_n<Ts...>(a,b,n,v,p);}
  static CIt search_ne(CIt a,CIt b,long n,const val& v){return pc::search_n<Ts...>(a,b,n,v);}
  static out copy(CIt a,CIt b,out o){return pc::copy<Ts...>(a,b,o);}
  static out copy_n(CIt a,long n,out o){return pc::copy_n<Ts...>(a,n,o);}
  static out copy_nb(CIt a,unsigned char n,out o){return pc::copy_n<Ts...>(a,n,o);}
  static out copy_if(CIt a,CIt b,out o,pred p){return pc::copy_if<Ts...>(a,b,o,p);}
  static out move(It a,It b,out o){return pc::move<Ts...>(a,b,o);}
  static out transform(CIt a,CIt b,out o,op1 p){return pc::transform<Ts...>(a,b,o,p);}
  static out transform2(CIt a,CIt b,in f,out o,op2 p){return pc::transform<Ts...>(a,b,f,o,p);}
  static out replace_copy(CIt a,CIt b,out o,const val& v,const val& w){return pc::replace_copy<Ts...>(a,b,o,v,w);}
  static out replace_copy_if(CIt a,CIt b,out o,pred p,const val& w){return pc::replace_copy_if<Ts...>(a,b,o,p,w);}
  static out remove_copy(CIt a,CIt b,out o,const val& v){return pc::remove_copy<Ts...>(a,b,o,v);}
  static out remove_copy_if(CIt a,CIt b,out o,pred p){return pc::remove_copy_if<Ts...>(a,b,o,p);}
  static out unique_copy(CIt a,CIt b,out o,pred2 p){return pc::unique_copy<Ts...>(a,b,o,p);}
  static out rotate_copy(CIt a,CIt m,CIt b,out o){return pc::rotate_copy<Ts...>(a,m,b,o);}
  static out sample(CIt a,CIt b,out o,long n,gen& g){return pc::sample<Ts...>(a,b,o,n,g);}
  static out sample_b(CIt a,CIt b,out o,unsigned char n,gen& g){return pc::sample<Ts...>(a,b,o,n,g);}
  static bool is_partitioned(CIt a,CIt b,pred p){return pc::is_partitioned<Ts...>(a,b,p);}
  static std::pair<out,out> partition_copy(CIt a,CIt b,out o,out q,pred p){return pc::partition_copy<Ts...>(a,b,o,q,p);}
  static CIt partition_point(CIt a,CIt b,pred p){return pc::partition_point<Ts...>(a,b,p);}
};
template struct algs<Coll>;
template struct algs<Coll,D1>;
template struct algs<Coll,D2,D3>;
template struct algs<Coll,D3,D1,D2>;
