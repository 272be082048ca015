// Type-level obligations: each one is a static_assert whose message names it.
#ifndef VW_OB_HPP
#define VW_OB_HPP
#include <type_traits>
#include <utility>
#include <typeinfo>
#include <tuple>
#if VW_KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif VW_KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#include <boost/mpl/vector.hpp>
#endif
#define OB(name,...) static_assert((__VA_ARGS__),"VW:" name)
template<class...> struct vw_void{using type=void;};
template<class... T> using void_t_=typename vw_void<T...>::type;
template<class A,class B> constexpr bool same(){return std::is_same<A,B>::value;}
template<class From,class To> constexpr bool conv(){return std::is_convertible<From,To>::value&&std::is_constructible<To,From>::value&&std::is_assignable<To&,From>::value;}
template<class From,class To> constexpr bool expl(){return !std::is_convertible<From,To>::value&&std::is_constructible<To,From>::value;}
template<class From,class To> constexpr bool none(){return !std::is_convertible<From,To>::value&&!std::is_constructible<To,From>::value&&!std::is_assignable<To&,From>::value;}
#define DETECT(name,...) \
template<class V,class=void> struct name##_:std::false_type{}; \
template<class V> struct name##_<V,void_t_<decltype(__VA_ARGS__)>>:std::true_type{}; \
template<class V> constexpr bool name(){return name##_<V>::value;}
struct base{virtual ~base()=default;virtual int f(int)const{return 0;} long b=0;};
#if VW_KIND==0
template<class A=std::allocator<base>> using coll_al=boost::base_collection<base,A>;
#elif VW_KIND==1
template<class A=std::allocator<boost::poly_collection::function_collection_value_type<int(int)>>> using coll_al=boost::function_collection<int(int),A>;
#else
using concept_=boost::mpl::vector<boost::type_erasure::callable<int(int),const boost::type_erasure::_self>>;
template<class A=std::allocator<boost::poly_collection::any_collection_value_type<concept_>>> using coll_al=boost::any_collection<concept_,A>;
#endif
using coll=coll_al<>;
#define VW_BODY(X) \
  X()=default;X(const X&)=default;X(X&&)=default;X& operator=(const X&)=default;X& operator=(X&&)=default;~X()=default; \
  explicit X(int){} bool operator==(const X&)const{return true;} int operator()(int)const{return 0;}
struct D1:base{VW_BODY(D1)};
struct D2 final:base{VW_BODY(D2)};
#endif
