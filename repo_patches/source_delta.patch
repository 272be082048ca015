From 28c718b0a50cb6234ceb5744ca61f1c486501a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:46 +0000
Subject: [PATCH 01/16] fix: split_segment single-element erase leaves the
 index short if erasing throws

The index entry was popped before the store's erase, whose move assignments
may throw with no element having been removed.
---
 include/boost/poly_collection/detail/split_segment.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 4c18788..8b6cc0c 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -245,8 +245,9 @@ public:
 
   range nv_erase(const_iterator p)
   {
+    auto it=s.erase(iterator_from(p));
     pop_index_entry();
-    return range_from(s.erase(iterator_from(p)));
+    return range_from(it);
   }
     
   virtual range erase(const_base_iterator first,const_base_iterator last)
-- 
2.43.0


From 02b85af46e5bf5ec7d5a9601e296d25354a24e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:55 +0000
Subject: [PATCH 02/16] fix: segment's cached sentinel goes stale when a
 modifying operation throws

snt was refreshed only on normal return, so after an exception leaving the
segment with a different size or with reallocated storage, global iteration
stopped at a wrong (possibly dangling) position.
---
 .../boost/poly_collection/detail/segment.hpp  | 92 ++++++++++++++-----
 1 file changed, 71 insertions(+), 21 deletions(-)

diff --git a/include/boost/poly_collection/detail/segment.hpp b/include/boost/poly_collection/detail/segment.hpp
index a080839..6c7b520 100644
--- a/include/boost/poly_collection/detail/segment.hpp
+++ b/include/boost/poly_collection/detail/segment.hpp
@@ -115,33 +115,52 @@ public:
   template<typename U>
   std::size_t          max_size()const noexcept
                          {return impl<U>().nv_max_size();}
-  void                 reserve(std::size_t n){filter(impl().reserve(n));}
+  void                 reserve(std::size_t n)
+  {
+    sentinel_guard g{*this};
+    g.filter(impl().reserve(n));
+  }
   template<typename U>
-  void                 reserve(std::size_t n){filter(impl<U>().nv_reserve(n));}
+  void                 reserve(std::size_t n)
+  {
+    sentinel_guard g{*this};
+    g.filter(impl<U>().nv_reserve(n));
+  }
   std::size_t          capacity()const noexcept{return impl().capacity();}
   template<typename U>
   std::size_t          capacity()const noexcept
                          {return impl<U>().nv_capacity();}
-  void                 shrink_to_fit(){filter(impl().shrink_to_fit());}
+  void                 shrink_to_fit()
+  {
+    sentinel_guard g{*this};
+    g.filter(impl().shrink_to_fit());
+  }
   template<typename U>
-  void                 shrink_to_fit(){filter(impl<U>().nv_shrink_to_fit());}
+  void                 shrink_to_fit()
+  {
+    sentinel_guard g{*this};
+    g.filter(impl<U>().nv_shrink_to_fit());
+  }
 
   template<typename U,typename Iterator,typename... Args>
   base_iterator emplace(Iterator it,Args&&... args)
   {
-    return filter(impl<U>().nv_emplace(it,std::forward<Args>(args)...));
+    sentinel_guard g{*this};
+    return g.filter(impl<U>().nv_emplace(it,std::forward<Args>(args)...));
   }
 
   template<typename U,typename... Args>
   base_iterator emplace_back(Args&&... args)
   {
-    return filter(impl<U>().nv_emplace_back(std::forward<Args>(args)...));
+    sentinel_guard g{*this};
+    return g.filter(impl<U>().nv_emplace_back(std::forward<Args>(args)...));
   }
 
   template<typename T>
   base_iterator push_back(const T& x)
   {
-    return filter(impl().push_back(subaddress(x)));
+    sentinel_guard g{*this};
+    return g.filter(impl().push_back(subaddress(x)));
   }
 
   template<
@@ -152,26 +171,30 @@ public:
   >
   base_iterator push_back(T&& x)
   {
-    return filter(impl().push_back_move(subaddress(x)));
+    sentinel_guard g{*this};
+    return g.filter(impl().push_back_move(subaddress(x)));
   }
 
   template<typename U>
   base_iterator push_back_terminal(U&& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g.filter(
       impl<typename std::decay<U>::type>().nv_push_back(std::forward<U>(x)));
   }
 
   template<typename T>
   base_iterator insert(const_base_iterator it,const T& x)
   {
-    return filter(impl().insert(it,subaddress(x)));
+    sentinel_guard g{*this};
+    return g.filter(impl().insert(it,subaddress(x)));
   }
 
   template<typename U,typename T>
   base_iterator insert(const_iterator<U> it,const T& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g.filter(
       impl<U>().nv_insert(it,*static_cast<const U*>(subaddress(x))));
   }
 
@@ -183,7 +206,8 @@ public:
   >
   base_iterator insert(const_base_iterator it,T&& x)
   {
-    return filter(impl().insert_move(it,subaddress(x)));
+    sentinel_guard g{*this};
+    return g.filter(impl().insert_move(it,subaddress(x)));
   }
 
   template<
@@ -194,14 +218,16 @@ public:
   >
   base_iterator insert(const_iterator<U> it,T&& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g.filter(
       impl<U>().nv_insert(it,std::move(*static_cast<U*>(subaddress(x)))));
   }
 
   template<typename InputIterator>
   base_iterator insert(InputIterator first,InputIterator last)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g.filter(
       impl<typename std::iterator_traits<InputIterator>::value_type>().
         nv_insert(first,last));
   }
@@ -220,41 +246,48 @@ public:
   base_iterator insert(
     const_iterator<U> it,InputIterator first,InputIterator last)
   {
-    return filter(impl<U>().nv_insert(it,first,last));
+    sentinel_guard g{*this};
+    return g.filter(impl<U>().nv_insert(it,first,last));
   }
 
   base_iterator erase(const_base_iterator it)
   {
-    return filter(impl().erase(it));
+    sentinel_guard g{*this};
+    return g.filter(impl().erase(it));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> it)
   {
-    return filter(impl<U>().nv_erase(it));
+    sentinel_guard g{*this};
+    return g.filter(impl<U>().nv_erase(it));
   }
 
   base_iterator erase(const_base_iterator f,const_base_iterator l)
   {
-    return filter(impl().erase(f,l));
+    sentinel_guard g{*this};
+    return g.filter(impl().erase(f,l));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> f,const_iterator<U> l)
   {
-    return filter(impl<U>().nv_erase(f,l));
+    sentinel_guard g{*this};
+    return g.filter(impl<U>().nv_erase(f,l));
   }
 
   template<typename Iterator>
   base_iterator erase_till_end(Iterator f)
   {
-    return filter(impl().erase_till_end(f));
+    sentinel_guard g{*this};
+    return g.filter(impl().erase_till_end(f));
   }
 
   template<typename Iterator>
   base_iterator erase_from_begin(Iterator l)
   {
-    return filter(impl().erase_from_begin(l));
+    sentinel_guard g{*this};
+    return g.filter(impl().erase_from_begin(l));
   }
   
   void                 clear()noexcept{filter(impl().clear());}
@@ -273,6 +306,23 @@ private:
 
   struct from_prototype{};
 
+  /* keeps snt in sync when the modifying operation on impl() throws */
+
+  struct sentinel_guard
+  {
+    sentinel_guard(segment& x_)noexcept:x(&x_){}
+    sentinel_guard(const sentinel_guard&)=delete;
+    sentinel_guard& operator=(const sentinel_guard&)=delete;
+    ~sentinel_guard(){if(x)x->set_sentinel();}
+
+    void          filter(base_sentinel r){release().filter(r);}
+    base_iterator filter(const range& r){return release().filter(r);}
+
+    segment& release()noexcept{auto y=x;x=nullptr;return *y;}
+
+    segment* x;
+  };
+
   segment(segment_backend_unique_ptr&& pimpl):
     pimpl{std::move(pimpl)}{set_sentinel();}
   segment(from_prototype,const segment& x,const allocator_type& al):
-- 
2.43.0


From 94fac917e45bd1bd353f9e44f4acd1425907b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:36 +0000
Subject: [PATCH 03/16] fix: split_segment index not extended when a positional
 insertion throws

std::vector::emplace in the middle may throw from the element shift after the
vector has grown by one; the index was then one entry short of size()+1.
---
 .../poly_collection/detail/split_segment.hpp  | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 8b6cc0c..551b07a 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -165,11 +165,9 @@ public:
   range nv_emplace(Iterator p,Args&&... args)
   {
     auto q=prereserve(p);
-    auto it=s.emplace(
+    return range_from(emplace_entry(
       iterator_from(q),
-      value_holder_emplacing_ctor,std::forward<Args>(args)...);
-    push_index_entry();
-    return range_from(it);
+      value_holder_emplacing_ctor,std::forward<Args>(args)...));
   }
 
   template<typename... Args>
@@ -209,9 +207,7 @@ public:
   range nv_insert(const_iterator p,const Concrete& x)
   {
     p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),x);
-    push_index_entry();
-    return range_from(it);
+    return range_from(emplace_entry(iterator_from(p),x));
   }
 
   virtual range insert_move(const_base_iterator p,value_pointer x)
@@ -220,9 +216,7 @@ public:
   range nv_insert(const_iterator p,Concrete&& x)
   {
     p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),std::move(x));
-    push_index_entry();
-    return range_from(it);
+    return range_from(emplace_entry(iterator_from(p),std::move(x)));
   }
 
   template<typename InputIterator>
@@ -463,6 +457,23 @@ private:
     return {base_iterator{value_ptr(i.data()+n)},sentinel()};
   }
 
+  /* capacity for the new element assumed to be available in s and i */
+
+  template<typename... Args>
+  store_iterator emplace_entry(store_iterator it,Args&&... args)
+  {
+    auto n=s.size();
+    try{
+      it=s.emplace(it,std::forward<Args>(args)...);
+    }
+    catch(...){
+      build_index(n+1); /* s may have grown by one */
+      throw;
+    }
+    push_index_entry();
+    return it;
+  }
+
   template<typename InputIterator>
   range insert(
     const_iterator p,InputIterator first,InputIterator last,
@@ -471,8 +482,7 @@ private:
     std::size_t n=0;
     for(;first!=last;++first,++n,++p){
       p=prereserve(p);
-      s.emplace(iterator_from(p),*first);
-      push_index_entry();
+      emplace_entry(iterator_from(p),*first);
     }
     return range_from(iterator_from(p-n));
   }
-- 
2.43.0


From 9b8ae855b09d032b5b229d03f8dcab4b3e1306be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:59 +0000
Subject: [PATCH 04/16] fix: inserting an element of a function_collection or
 any_collection into itself

When the segment was full, split_segment expanded its storage, and so released
the elements, before constructing the new element from its arguments.
---
 .../poly_collection/detail/split_segment.hpp  | 58 ++++++++-----------
 1 file changed, 23 insertions(+), 35 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 551b07a..09b9ab6 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -164,19 +164,16 @@ public:
   template<typename Iterator,typename... Args>
   range nv_emplace(Iterator p,Args&&... args)
   {
-    auto q=prereserve(p);
-    return range_from(emplace_entry(
-      iterator_from(q),
-      value_holder_emplacing_ctor,std::forward<Args>(args)...));
+    return emplace_at(
+      iterator_from(p)-s.begin(),
+      value_holder_emplacing_ctor,std::forward<Args>(args)...);
   }
 
   template<typename... Args>
   range nv_emplace_back(Args&&... args)
   {
-    prereserve();
-    s.emplace_back(value_holder_emplacing_ctor,std::forward<Args>(args)...);
-    push_index_entry();
-    return range_from(s.size()-1);
+    return emplace_at(
+      s.size(),value_holder_emplacing_ctor,std::forward<Args>(args)...);
   }
 
   virtual range push_back(const_value_pointer x)
@@ -184,10 +181,7 @@ public:
 
   range nv_push_back(const Concrete& x)
   {
-    prereserve();
-    s.emplace_back(x);
-    push_index_entry();
-    return range_from(s.size()-1);
+    return emplace_at(s.size(),x);
   }
 
   virtual range push_back_move(value_pointer x)
@@ -195,10 +189,7 @@ public:
 
   range nv_push_back(Concrete&& x)
   {
-    prereserve();
-    s.emplace_back(std::move(x));
-    push_index_entry();
-    return range_from(s.size()-1);
+    return emplace_at(s.size(),std::move(x));
   }
 
   virtual range insert(const_base_iterator p,const_value_pointer x)
@@ -206,8 +197,7 @@ public:
 
   range nv_insert(const_iterator p,const Concrete& x)
   {
-    p=prereserve(p);
-    return range_from(emplace_entry(iterator_from(p),x));
+    return emplace_at(iterator_from(p)-s.begin(),x);
   }
 
   virtual range insert_move(const_base_iterator p,value_pointer x)
@@ -215,8 +205,7 @@ public:
 
   range nv_insert(const_iterator p,Concrete&& x)
   {
-    p=prereserve(p);
-    return range_from(emplace_entry(iterator_from(p),std::move(x)));
+    return emplace_at(iterator_from(p)-s.begin(),std::move(x));
   }
 
   template<typename InputIterator>
@@ -319,21 +308,6 @@ private:
     build_index();
   }
 
-  void prereserve()
-  {
-    if(s.size()==s.capacity())expand();
-  }
-
-  const_base_iterator prereserve(const_base_iterator p)
-  {
-    if(s.size()==s.capacity()){
-      auto n=p-i.data();
-      expand();
-      return const_base_iterator{i.data()+n};
-    }
-    else return p;
-  }
-
   const_iterator prereserve(const_iterator p)
   {
     if(s.size()==s.capacity()){
@@ -457,6 +431,20 @@ private:
     return {base_iterator{value_ptr(i.data()+n)},sentinel()};
   }
 
+  template<typename... Args>
+  range emplace_at(std::size_t n,Args&&... args)
+  {
+    if(s.size()==s.capacity()){
+      /* args may refer to elements in s: use them before expanding */
+      store x{s.get_allocator()};
+      x.emplace_back(std::forward<Args>(args)...);
+      expand();
+      return range_from(emplace_entry(s.begin()+n,std::move(x.back())));
+    }
+    else return range_from(
+      emplace_entry(s.begin()+n,std::forward<Args>(args)...));
+  }
+
   /* capacity for the new element assumed to be available in s and i */
 
   template<typename... Args>
-- 
2.43.0


From c13d196a9e43fa37a8518694a916f5dc32840d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:25 +0000
Subject: [PATCH 05/16] fix: adjacent_find and unique_copy restitute the
 previous segment's type wrongly

prev_info was passed by value, so across segments the element before was always
handled as of type void, i.e. never restituted to its concrete type.
---
 include/boost/poly_collection/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 67c4fc3..ab737b7 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -244,7 +244,7 @@ struct adjacent_find_alg
   >
   LocalBaseIterator operator()(
     LocalIterator first,LocalIterator last,BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(first==last)return LocalBaseIterator{last};
@@ -955,7 +955,7 @@ struct unique_copy_alg
   OutputIterator operator()(
     LocalIterator first,LocalIterator last,
     OutputIterator res, BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(carry){
-- 
2.43.0


From 70f3d353015c00ec105ae5146169c37426a76c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:25 +0000
Subject: [PATCH 06/16] fix: copy_n does not compile for size types other than
 std::ptrdiff_t

---
 include/boost/poly_collection/algorithm.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index ab737b7..5bc575b 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -19,6 +19,7 @@
 #include <boost/poly_collection/detail/iterator_traits.hpp>
 #include <boost/poly_collection/detail/segment_split.hpp>
 #include <boost/poly_collection/detail/type_restitution.hpp>
+#include <cstddef>
 #include <iterator>
 #include <random>
 #include <type_traits>
@@ -778,7 +779,9 @@ OutputIterator copy_n(const Iterator& first,Size count,OutputIterator res)
   auto lbit=traits::local_base_iterator_from(first);
   auto sit=traits::base_segment_info_iterator_from(first);
   for(;;){
-    auto n=(std::min)(count,sit->end()-lbit);
+    auto n=(std::min)(
+      static_cast<std::ptrdiff_t>(count),
+      static_cast<std::ptrdiff_t>(sit->end()-lbit));
     auto alg=restitute_iterator<Ts...>(std_copy_n{},n,res);
     res=alg(sit->type_info(),lbit);
     if((count-=n)==0)break;
-- 
2.43.0


From a656c4b185dc94fb803b58478caa07ddce1e1e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:02 +0000
Subject: [PATCH 07/16] fix: function_collection takes the address of its
 callables with operator&

A callable overloading unary & was wrapped with the wrong address.
---
 include/boost/poly_collection/detail/callable_wrapper.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper.hpp b/include/boost/poly_collection/detail/callable_wrapper.hpp
index 9b339db..18c80f7 100644
--- a/include/boost/poly_collection/detail/callable_wrapper.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper.hpp
@@ -13,6 +13,7 @@
 #pragma once
 #endif
 
+#include <boost/core/addressof.hpp>
 #include <boost/poly_collection/detail/is_invocable.hpp>
 #include <functional>
 #include <type_traits>
@@ -41,7 +42,8 @@ public:
       is_invocable_r<R,Callable,Args...>::value
     >::type* =nullptr
   >
-  explicit callable_wrapper(Callable& x)noexcept:pt{info(x)},px{&x}{}
+  explicit callable_wrapper(Callable& x)noexcept:pt{info(x)},
+    px{boost::addressof(x)}{}
   callable_wrapper(const callable_wrapper&)=default;
   callable_wrapper& operator=(const callable_wrapper&)=default;
 
-- 
2.43.0


From c00108d4b66734fa9971b4b8c565c9f6e70c72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:32 +0000
Subject: [PATCH 08/16] fix: split_segment constructed with less index capacity
 than its store needs

Insertion within capacity() could then reallocate the index, moving the
elements' handles, or throw with the new element stored but not indexed.
---
 include/boost/poly_collection/detail/split_segment.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 09b9ab6..09816aa 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -298,6 +298,7 @@ private:
     i{{},typename index::allocator_type{al}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
@@ -305,6 +306,7 @@ private:
     s{std::move(s_)},i{{},typename index::allocator_type{s.get_allocator()}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
-- 
2.43.0


From 22e100e9cf1c3632357a209d0510908a89d3b48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:06 +0000
Subject: [PATCH 09/16] fix: leave the source of an allocator-extended move
 consistent when it throws

type_info_map(type_info_map&&,const allocator_type&) with unequal allocators
moves the segments one by one; when this throws half-way, the moved-from
segments' cached ranges stayed in x's cache and iteration over the source
disagreed with its size. Clear map and cache of the source on the way out,
as the move assignment and the normal path do.
---
 include/boost/poly_collection/detail/type_info_map.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index f983b82..46eac58 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -81,7 +81,8 @@ public:
   type_info_map(const type_info_map& x,const allocator_type& al):
     map{make(x.map,al)},cache{make<cache_type>(al)}
     {build_cache(x.cache);}
-  type_info_map(type_info_map&& x,const allocator_type& al):
+  type_info_map(type_info_map&& x,const allocator_type& al)
+  try:
     map{make(std::move(x.map),al)},
     cache{
       al==allocator_type{x.map.get_allocator()}&&x.map.empty()?
@@ -95,6 +96,11 @@ public:
     x.map.clear();
     x.cache.clear();
   }
+  catch(...){
+    x.map.clear();
+    x.cache.clear();
+    throw;
+  }
 
   type_info_map& operator=(const type_info_map& x)
   {
-- 
2.43.0


From b35a3e3464af4cf842fb5740564891dba1b68e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:24 +0000
Subject: [PATCH 10/16] fix: do not convert const local iterators to mutable
 ones

The positional conversion between local iterator types was enabled for
const_local_[base_]iterator -> local_[base_]iterator as well, which gave
mutable access to the elements of a const collection.
---
 include/boost/poly_collection/detail/iterator_impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/poly_collection/detail/iterator_impl.hpp b/include/boost/poly_collection/detail/iterator_impl.hpp
index 2a40bbe..7852a2d 100644
--- a/include/boost/poly_collection/detail/iterator_impl.hpp
+++ b/include/boost/poly_collection/detail/iterator_impl.hpp
@@ -143,6 +143,12 @@ class local_iterator_impl:
   using segment_base_iterator=typename PolyCollection::segment_base_iterator;
   using const_segment_map_iterator=
     typename PolyCollection::const_segment_map_iterator;
+  template<typename Iterator>
+  using is_const_iterator=std::is_const<
+    typename std::remove_reference<
+      typename std::iterator_traits<Iterator>::reference
+    >::type
+  >;
 
 #if BOOST_WORKAROUND(BOOST_GCC_VERSION,>=90300)&&\
     BOOST_WORKAROUND(BOOST_GCC_VERSION,<100300)
@@ -195,6 +201,8 @@ public:
     typename BaseIterator2,
     typename std::enable_if<
       !is_constructible<BaseIterator,BaseIterator2>::value&&
+      (is_const_iterator<BaseIterator>::value||
+       !is_const_iterator<BaseIterator2>::value)&&
       is_constructible<BaseIterator,segment_base_iterator>::value&&
       is_constructible<BaseIterator2,segment_base_iterator>::value
     >::type* =nullptr
-- 
2.43.0


From d7f0bdf7f886757c456121575ae55b7d6b78c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:11 +0000
Subject: [PATCH 11/16] fix: allocator-extended value_holder constructors are
 not noexcept

They construct the element through allocator_traits::construct, which may
run an allocator-extended constructor of T that throws although the regular
copy/move constructor is noexcept; the program was terminated instead of
the exception reaching the caller.
---
 include/boost/poly_collection/detail/value_holder.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/poly_collection/detail/value_holder.hpp b/include/boost/poly_collection/detail/value_holder.hpp
index b4cef22..3952cd6 100644
--- a/include/boost/poly_collection/detail/value_holder.hpp
+++ b/include/boost/poly_collection/detail/value_holder.hpp
@@ -88,19 +88,21 @@ class value_holder:public value_holder_base<T>
   const T& value()const noexcept{return *static_cast<const T*>(data());}
 
 public:
+  /* not noexcept: construct may run an allocator-extended ctor of T, which
+   * can throw even if the corresponding regular ctor does not.
+   */
+
   template<
     typename Allocator,
     enable_if_not_emplacing_ctor_t<Allocator> =nullptr
   >
   value_holder(Allocator& al,const T& x)
-    noexcept(is_nothrow_copy_constructible::value)
     {copy(al,x);}
   template<
     typename Allocator,
     enable_if_not_emplacing_ctor_t<Allocator> =nullptr
   >
   value_holder(Allocator& al,T&& x)
-    noexcept(is_nothrow_move_constructible::value)
     {std::allocator_traits<Allocator>::construct(al,data(),std::move(x));}
   template<
     typename Allocator,typename... Args,
@@ -114,14 +116,12 @@ public:
     enable_if_not_emplacing_ctor_t<Allocator> =nullptr
   >
   value_holder(Allocator& al,const value_holder& x)
-    noexcept(is_nothrow_copy_constructible::value)
     {copy(al,x.value());}
   template<
     typename Allocator,
     enable_if_not_emplacing_ctor_t<Allocator> =nullptr
   >
   value_holder(Allocator& al,value_holder&& x)
-    noexcept(is_nothrow_move_constructible::value)
     {std::allocator_traits<Allocator>::construct(
       al,data(),std::move(x.value()));}
 
-- 
2.43.0


From a619e9c121e76e9786c497070c57b250d9344dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:02 +0000
Subject: [PATCH 12/16] fix: algorithms do not use an overloaded comma operator
 of user iterators

---
 include/boost/poly_collection/algorithm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 5bc575b..fb6af1b 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -421,7 +421,7 @@ struct equal_alg
     InputIterator1 first1,InputIterator1 last1,
     InputIterator2& first2,BinaryPredicate pred)const /* note the & */
   {
-    for(;first1!=last1;++first1,++first2){
+    for(;first1!=last1;++first1,(void)++first2){
       if(!pred(*first1,*first2))return false;
     }
     return true;
@@ -436,7 +436,7 @@ struct equal_alg
     InputIterator2& first2,InputIterator2 last2, /* note the & */
     BinaryPredicate pred)const
   {
-    for(;first1!=last1&&first2!=last2;++first1,++first2){
+    for(;first1!=last1&&first2!=last2;++first1,(void)++first2){
       if(!pred(*first1,*first2))return false;
     }
     return first1==last1; /* don't check first2==last2 as op is partial */
@@ -869,7 +869,7 @@ struct replace_copy_alg
     InputIterator first,InputIterator last,OutputIterator res,
     const T& old_x,const T& new_x)
   {
-    for(;first!=last;++first,++res){
+    for(;first!=last;++first,(void)++res){
       if(*first==old_x)*res=new_x;
       else             *res=*first;
     }
@@ -903,7 +903,7 @@ struct replace_copy_if_alg
     InputIterator first,InputIterator last,OutputIterator res,
     Predicate pred,const T& new_x)
   {
-    for(;first!=last;++first,++res){
+    for(;first!=last;++first,(void)++res){
       if(pred(*first))*res=new_x;
       else            *res=*first;
     }
-- 
2.43.0


From 9722f6f08b9517a89effaf115ca0387b2ef40168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:02 +0000
Subject: [PATCH 13/16] fix: split_segment range insertion does not use an
 overloaded comma operator of user iterators

---
 include/boost/poly_collection/detail/split_segment.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 09816aa..c7c66eb 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -470,7 +470,7 @@ private:
     std::input_iterator_tag)
   {
     std::size_t n=0;
-    for(;first!=last;++first,++n,++p){
+    for(;first!=last;(void)++first,++n,++p){
       p=prereserve(p);
       emplace_entry(iterator_from(p),*first);
     }
-- 
2.43.0


From b0f6013da1cd8daa5c81b368b2cac89d99ac3a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:02 +0000
Subject: [PATCH 14/16] fix: partition_point accepts predicates whose result is
 only contextually convertible to bool

---
 include/boost/poly_collection/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index fb6af1b..345c22b 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -1098,9 +1098,9 @@ struct partition_point_pred
   {
     using traits=iterator_traits<Iterator>;
     auto p=restitute_iterator<Ts...>(deref_to(pred));
-    return p(
+    return static_cast<bool>(p(
       traits::base_segment_info_iterator_from(it)->type_info(),
-      traits::local_base_iterator_from(it));
+      traits::local_base_iterator_from(it)));
   }
 
   Predicate pred;
-- 
2.43.0


From b3d2f5cd5409fc308d28ae93bd1f66125b4a83b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:42 +0000
Subject: [PATCH 15/16] fix: adjacent_find finds a pair across segments
 whatever the segments' addresses

The position of the previous segment's last element was compared with the end
of the current segment to tell whether a pair was found. The two are equal when
the allocator places one segment right before the other.
---
 include/boost/poly_collection/algorithm.hpp | 27 +++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 345c22b..a55bf6c 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -243,15 +243,15 @@ struct adjacent_find_alg
   template<
     typename LocalIterator,typename BinaryPredicate,typename LocalBaseIterator
   >
-  LocalBaseIterator operator()(
+  bool operator()(
     LocalIterator first,LocalIterator last,BinaryPredicate pred,
     bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
-    if(first==last)return LocalBaseIterator{last};
+    if(first==last)return false;
     if(carry){
       auto p=restitute_iterator<Ts...>(deref_to(pred));
-      if(p(*prev_info,prev,first))return prev;
+      if(p(*prev_info,prev,first))return true;
     }
     auto res=std::adjacent_find(first,last,pred);
     if(res==last){
@@ -259,9 +259,12 @@ struct adjacent_find_alg
       prev_info=&typeid(
         typename std::iterator_traits<LocalIterator>::value_type);
       prev=LocalBaseIterator{last-1};
+      return false;
+    }
+    else{
+      prev=LocalBaseIterator{res};
+      return true;
     }
-    else carry=false;
-    return LocalBaseIterator{res};
   }
 };
 
@@ -278,8 +281,18 @@ Iterator adjacent_find(
   bool                  carry=false;
   const std::type_info* prev_info{&typeid(void)};
   local_base_iterator   prev;
-  return generic_find<adjacent_find_alg<Ts...>,Ts...>(
-    first,last,pred,carry,prev_info,prev);  
+  auto                  alg=restitute_range<Ts...>(
+                          adjacent_find_alg<Ts...>{},
+                          pred,carry,prev_info,prev);
+  for(auto i:detail::segment_split(first,last)){
+    /* prev, as it may belong to a previous segment, can't be compared to the
+     * positions of i
+     */
+    if(alg(i))
+      return traits::iterator_from(
+        prev,traits::end_base_segment_info_iterator_from(last));
+  }
+  return last;
 }
 
 template<
-- 
2.43.0


From bb691a84059dc3bf057999b3137d834940b26e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:03 +0000
Subject: [PATCH 16/16] fix: sample works when the count type is narrower than
 the range's length

---
 include/boost/poly_collection/algorithm.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index a55bf6c..07d7aaa 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -1060,13 +1060,17 @@ OutputIterator sample(
   const Iterator& first,const Iterator& last,
   OutputIterator res,Distance n,UniformRandomBitGenerator&& g)
 {
-  Distance m=algorithm::fast_distance(first,last);
-  n=(std::min)(n,m);
+  /* Distance may be narrower than the length of the range */
+  using distance_type=
+    typename std::common_type<Distance,std::ptrdiff_t>::type;
+
+  distance_type m=algorithm::fast_distance(first,last),
+                k=(std::min)(static_cast<distance_type>(n),m);
 
   for(auto i:detail::segment_split(first,last)){
-    auto alg=restitute_range<Ts...>(sample_alg{},res,n,m,g);
+    auto alg=restitute_range<Ts...>(sample_alg{},res,k,m,g);
     res=alg(i);
-    if(n==0)return res;
+    if(k==0)return res;
   }
   return res; /* never reached */
 }
-- 
2.43.0

