// Element types used by the witnesses.  User-supplied operations are declared,
// never defined: the analysis treats them as opaque and possibly throwing.
#ifndef VW_TYPES_HPP
#define VW_TYPES_HPP
#include <cstddef>
#include <iterator>
#include <memory>
#include <typeinfo>
// VW_NT: the element types' own operations are noexcept, the allocator's construct is not
#ifdef VW_NT
#define VW_NE noexcept
#else
#define VW_NE
#endif
namespace vt{
void sink(const void*)noexcept;
void sink_ti(const std::type_info&)noexcept;
struct base{
  base()=default;
  virtual ~base();
#if defined(VW_ALLOC)||defined(VW_ALG)
  virtual int f(int)const;
#else
  virtual int f(int)const=0;
#endif
  long b;
};
struct pad{long p;virtual ~pad();};
// D1: usable as a base class (not final); base subobject not at offset 0
struct D1:pad,base{
  explicit D1(int);
  D1(int,long&&,const char&)VW_NE;
  D1(const D1&)VW_NE;
  D1(D1&&)VW_NE;
  D1& operator=(const D1&)VW_NE;
  D1& operator=(D1&&)VW_NE;
  ~D1();
#ifndef VW_ALG
  bool operator==(const D1&)const VW_NE;
#endif
  int operator()(int)const;
  int f(int)const override;
  long d[2];
};
// D2: final
struct D2 final:base{
  explicit D2(int);
  D2(int,long&&,const char&)VW_NE;
  D2(const D2&)VW_NE;
  D2(D2&&)VW_NE;
  D2& operator=(const D2&)VW_NE;
  D2& operator=(D2&&)VW_NE;
  ~D2();
#ifndef VW_ALG
  bool operator==(const D2&)const VW_NE;
#endif
  int operator()(int)const;
  int f(int)const override;
  long d[5];
};
// D3: not copyable, not equality comparable, move only
struct D3:base{
  explicit D3(int);
  D3(int,long&&,const char&);
  D3(const D3&)=delete;
  D3(D3&&)VW_NE;
  D3& operator=(D3&&)VW_NE;
  ~D3();
  int operator()(int)const;
  int f(int)const override;
  long d[1];
};
// generic single-pass / multi-pass iterators over elements of type T
template<class T,class Cat,class Ref=const T&> struct user_iter{
  using value_type=T;using reference=Ref;using pointer=const T*;
  using difference_type=std::ptrdiff_t;using iterator_category=Cat;
  reference operator*()const;
  user_iter& operator++();
  user_iter operator++(int);
  friend bool operator==(const user_iter&,const user_iter&);
  friend bool operator!=(const user_iter&,const user_iter&);
  const T* p;
};
// a stateful allocator; propagation traits chosen per instantiation
template<class T,bool POCCA=false,bool POCMA=false,bool POCS=false> struct alloc{
  using value_type=T;
  template<class U> struct rebind{using other=alloc<U,POCCA,POCMA,POCS>;};
  using propagate_on_container_copy_assignment=std::integral_constant<bool,POCCA>;
  using propagate_on_container_move_assignment=std::integral_constant<bool,POCMA>;
  using propagate_on_container_swap=std::integral_constant<bool,POCS>;
  using is_always_equal=std::false_type;
  alloc()noexcept;
  alloc(int)noexcept;
  alloc(const alloc&)noexcept;
  template<class U> alloc(const alloc<U,POCCA,POCMA,POCS>&)noexcept;
  alloc& operator=(const alloc&)noexcept;
#ifdef VW_SOCCC
  alloc select_on_container_copy_construction()const;
#endif
#ifdef VW_NT
  template<class U,class... A> void construct(U*,A&&...);
  template<class U> void destroy(U*)noexcept;
#endif
  T* allocate(std::size_t);
  void deallocate(T*,std::size_t)noexcept;
  template<class U> bool operator==(const alloc<U,POCCA,POCMA,POCS>&)const noexcept;
  template<class U> bool operator!=(const alloc<U,POCCA,POCMA,POCS>&)const noexcept;
  int id;
};
}
#endif
