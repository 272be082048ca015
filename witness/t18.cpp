// C18: exactly the documented element types are accepted, by overload resolution.
#include "ob.hpp"
#include <boost/poly_collection/algorithm.hpp>
#include <vector>
#if VW_KIND==0
#define BASE :base
#define BASE_ base
#else
#define BASE
struct nobase{};
#define BASE_ nobase
#endif
template<class T> T& lv();
template<class T> const T& clv();
#define CALL int operator()(int)const{return 0;}
// accepted
struct moveonly BASE{moveonly()=default;explicit moveonly(int){} moveonly(moveonly&&)=default;moveonly& operator=(moveonly&&)=default;CALL};
struct nothrow_noassign BASE{nothrow_noassign()=default;explicit nothrow_noassign(int){} nothrow_noassign(nothrow_noassign&&)noexcept{} nothrow_noassign& operator=(nothrow_noassign&&)=delete;CALL};
struct throwing_assign BASE{throwing_assign()=default;explicit throwing_assign(int){} throwing_assign(throwing_assign&&)noexcept(false){} throwing_assign& operator=(throwing_assign&&)noexcept(false){return *this;}CALL};
struct copy_noassign BASE{copy_noassign()=default;explicit copy_noassign(int){} copy_noassign(const copy_noassign&)noexcept{} copy_noassign& operator=(const copy_noassign&)=delete;CALL};
struct nocompare final BASE{nocompare()=default;explicit nocompare(int){} CALL};
struct nodefault BASE{nodefault()=delete;explicit nodefault(int){} CALL};
struct constmember BASE{explicit constmember(int){} const int c=0;CALL};
struct nonconst_call BASE{explicit nonconst_call(int){} 
#if VW_KIND==2
CALL
#else
int operator()(int){return 0;}
#endif
};
// rejected
struct nomove BASE{nomove()=default;explicit nomove(int){} nomove(nomove&&)=delete;nomove& operator=(nomove&&)=delete;CALL};
struct nomove_assign BASE{nomove_assign()=default;explicit nomove_assign(int){} nomove_assign(nomove_assign&&)=delete;nomove_assign& operator=(nomove_assign&&){return *this;}CALL};
struct throwing_noassign BASE{throwing_noassign()=default;explicit throwing_noassign(int){} throwing_noassign(throwing_noassign&&)noexcept(false){} throwing_noassign& operator=(throwing_noassign&&)=delete;CALL};
struct throwing_copy_noassign BASE{throwing_copy_noassign()=default;explicit throwing_copy_noassign(int){} throwing_copy_noassign(const throwing_copy_noassign&){} throwing_copy_noassign& operator=(const throwing_copy_noassign&)=delete;CALL};
struct wrongif{wrongif()=default;explicit wrongif(int){} int operator()(wrongif)const{return 0;}};
struct wrongret{explicit wrongret(int){} wrongif operator()(int)const;};
struct lvalref_only{explicit lvalref_only(int){} int operator()(int&)const;};
// only an rvalue can be called: elements are called as lvalues
struct rvcall{explicit rvcall(int){} int operator()(int)&&{return 0;}};
// accepted with conversions
struct convcall BASE{explicit convcall(int){} short operator()(long)const{return 0;}};
#define OPS(X) \
X(reg,lv<coll>().template register_types<V>())                                     \
X(is_reg,clv<coll>().template is_registered<V>())                                  \
X(begin_t,lv<coll>().template begin<V>())                                          \
X(end_t,lv<coll>().template end<V>())                                              \
X(cbegin_t,clv<coll>().template cbegin<V>())                                       \
X(cend_t,clv<coll>().template cend<V>())                                           \
X(begin_tc,clv<coll>().template begin<V>())                                        \
X(end_tc,clv<coll>().template end<V>())                                            \
X(segment_t,lv<coll>().template segment<V>())                                      \
X(segment_tc,clv<coll>().template segment<V>())                                    \
X(empty_t,clv<coll>().template empty<V>())                                         \
X(size_t_,clv<coll>().template size<V>())                                          \
X(max_size_t,clv<coll>().template max_size<V>())                                   \
X(capacity_t,clv<coll>().template capacity<V>())                                   \
X(reserve_t,lv<coll>().template reserve<V>(std::size_t(1)))                        \
X(shrink_t,lv<coll>().template shrink_to_fit<V>())                                 \
X(clear_t,lv<coll>().template clear<V>())                                          \
X(emplace,lv<coll>().template emplace<V>(1))                                       \
X(emplace_hint,lv<coll>().template emplace_hint<V>(lv<coll>().cbegin(),1))         \
X(emplace_pos_lb,lv<coll>().template emplace_pos<V>(lv<coll>().begin(typeid(V)),1))\
X(emplace_pos_clb,lv<coll>().template emplace_pos<V>(lv<coll>().cbegin(typeid(V)),1))
#define DET(n,...) DETECT(n,__VA_ARGS__)
OPS(DET)
DETECT(ins_rv,lv<coll>().insert(std::declval<V>()))
DETECT(ins_lv,lv<coll>().insert(lv<V>()))
DETECT(ins_clv,lv<coll>().insert(clv<V>()))
DETECT(ins_hint,lv<coll>().insert(lv<coll>().cbegin(),std::declval<V>()))
DETECT(ins_lb,lv<coll>().insert(lv<coll>().begin(typeid(V)),std::declval<V>()))
DETECT(ins_clb,lv<coll>().insert(lv<coll>().cbegin(typeid(V)),lv<V>()))
DETECT(ins_rng,lv<coll>().insert(lv<V*>(),lv<V*>()))
DETECT(ins_hint_rng,lv<coll>().insert(lv<coll>().cbegin(),lv<V*>(),lv<V*>()))
DETECT(ins_lb_rng,lv<coll>().insert(lv<coll>().begin(typeid(V)),lv<V*>(),lv<V*>()))
DETECT(ins_clb_rng,lv<coll>().insert(lv<coll>().cbegin(typeid(V)),lv<V*>(),lv<V*>()))
template<class V> constexpr bool inserts(){return ins_rv<V>()&&ins_lv<V>()&&ins_clv<V>()&&ins_hint<V>()&&ins_lb<V>()&&ins_clb<V>()&&ins_rng<V>()&&ins_hint_rng<V>()&&ins_lb_rng<V>()&&ins_clb_rng<V>();}
template<class V> constexpr bool inserts_none(){return !ins_rv<V>()&&!ins_lv<V>()&&!ins_clv<V>()&&!ins_hint<V>()&&!ins_lb<V>()&&!ins_clb<V>()&&!ins_rng<V>()&&!ins_hint_rng<V>()&&!ins_lb_rng<V>()&&!ins_clb_rng<V>();}
// is_registered names a type only; the rest of the interface is for acceptable types
#define ACC1(n,...) OB(#n " accepts the type",n<T>());
#define REJ1(n,...) OB(#n " rejects the type",same<T,void>()||sizeof(#n)==sizeof("is_reg")&&#n[0]=='i'||!n<T>());
template<class T> struct accepted{OPS(ACC1) OB("insert accepts the type",inserts<T>());};
template<class T> struct rejected{OPS(REJ1)};
template<class T> struct rejected_all:rejected<T>{OB("insert rejects the type",inserts_none<T>());};
#define A_(T) template struct accepted<T>;
A_(D1)A_(D2)A_(moveonly)A_(nothrow_noassign)A_(throwing_assign)A_(copy_noassign)A_(nocompare)A_(nodefault)A_(constmember)A_(nonconst_call)A_(convcall)
#define R_(T) template struct rejected<T>;
R_(nomove)R_(nomove_assign)R_(throwing_noassign)R_(throwing_copy_noassign)
#if VW_KIND!=2
template struct rejected_all<wrongif>; template struct rejected_all<int*>;
#endif
#if VW_KIND==0
struct unrelated{explicit unrelated(int){} int operator()(int)const{return 0;}};
struct abstract_d:base{virtual void g()=0;};
struct member_of{base b;};
template struct rejected_all<unrelated>; template struct rejected_all<member_of>; template struct rejected_all<int>;
template struct rejected<abstract_d>;
OB("objects of abstract types can be inserted by reference to their concrete type",ins_lv<abstract_d>()&&ins_clv<abstract_d>());
OB("the base itself is acceptable",reg<base>()&&ins_lv<base>());
#elif VW_KIND==1
template struct rejected_all<wrongret>; template struct rejected_all<lvalref_only>; template struct rejected_all<rvcall>; template struct rejected_all<int>; template struct rejected_all<base>;
using fp=int(*)(int);
OB("function pointers are acceptable",reg<fp>()&&ins_lv<fp>()&&ins_rv<fp>()&&begin_t<fp>());
#endif
// decayed types: reference arguments of insert
OB("insertion returns an iterator",same<decltype(lv<coll>().insert(lv<D1>())),coll::iterator>()&&same<decltype(lv<coll>().insert(lv<coll>().cbegin(),clv<D1>())),coll::iterator>()&&same<decltype(lv<coll>().emplace<D1>(1)),coll::iterator>());
OB("local insertion returns a local iterator",same<decltype(lv<coll>().insert(lv<coll>().cbegin(typeid(D1)),lv<D1>())),coll::local_base_iterator>()&&same<decltype(lv<coll>().insert(lv<coll>().cbegin<D1>(),lv<D1>())),coll::local_iterator<D1>>());
// collections of accepted types instantiate completely, and never use what the type does not have
template<class T> void whole(coll& c,coll& d){
  c.register_types<T>();(void)c.is_registered<T>();
  c.insert(T(1));T a[]={T(1)};(void)a;c.insert(c.begin(),T(1));c.insert(c.begin(typeid(T)),T(1));c.insert(c.begin<T>(),T(1));
  c.emplace<T>(1);c.emplace_hint<T>(c.begin(),1);c.emplace_pos<T>(c.begin(typeid(T)),1);c.emplace_pos(c.begin<T>(),1);c.emplace_pos(c.cbegin<T>(),1);
  c.insert(std::make_move_iterator(a),std::make_move_iterator(a+1));c.insert(c.cbegin(),std::make_move_iterator(a),std::make_move_iterator(a+1));
  c.insert(c.cbegin(typeid(T)),std::make_move_iterator(a),std::make_move_iterator(a+1));c.insert(c.cbegin<T>(),std::make_move_iterator(a),std::make_move_iterator(a+1));
  c.reserve<T>(1);c.reserve(1);c.shrink_to_fit<T>();c.shrink_to_fit();c.capacity<T>();c.max_size<T>();c.size<T>();c.empty<T>();
  c.erase(c.begin());c.erase(c.begin(typeid(T)));c.erase(c.begin<T>());c.erase(c.cbegin(),c.cend());c.erase(c.cbegin(typeid(T)),c.cend(typeid(T)));c.erase(c.cbegin<T>(),c.cend<T>());
  c.clear<T>();c.clear(typeid(T));c.clear();c.swap(d);c=d;c=std::move(d);coll e(c),f(std::move(c)),g(f,f.get_allocator()),h(std::move(f),g.get_allocator());(void)(g==h);(void)(g!=h);
}
#define W_(T) template void whole<T>(coll&,coll&);
W_(D1)W_(D2)W_(moveonly)W_(nothrow_noassign)W_(throwing_assign)W_(copy_noassign)W_(nocompare)W_(nodefault)W_(constmember)
