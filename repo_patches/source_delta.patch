From a1f31e487f5d20a37da3001b092ca50c1a6f0451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:32 +0000
Subject: [PATCH 01/77] fix: cpp atomics return the value of their own update,
 not a later reread

---
 ristra/atomics/src/atomics-macro-class.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ristra/atomics/src/atomics-macro-class.h b/ristra/atomics/src/atomics-macro-class.h
index 1a7394f..053f9df 100644
--- a/ristra/atomics/src/atomics-macro-class.h
+++ b/ristra/atomics/src/atomics-macro-class.h
@@ -33,9 +33,12 @@ public:
       // std::atomic<>'s fetch_add() etc. return the contained value BEFORE
       // the call, which is inconsistent with what we expect from "+=" etc.,
       // and with what we get from our other atomicity schemes (below). So,
-      // we split the call and the return.
-      atom.atomics_cpp(val,sync); // e.g. atom.fetch_add(val,sync)
-      return T(atom);
+      // we redo the operation on a local copy of the value it started from.
+      // (Reading atom again would not be part of the atomic operation; other
+      // threads' updates could show up in the return value.)
+      std::atomic<T> ret(atom.atomics_cpp(val,sync)); // e.g. atom.fetch_add(val,sync)
+      ret.atomics_cpp(val,std::memory_order_relaxed);
+      return T(ret);
    }
    #endif
 
-- 
2.43.0


From c1910108f6324e51ce863723570ed4167c19efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:00 +0000
Subject: [PATCH 02/77] fix: fixed_vector insert shifts overlapping elements
 from the back

---
 ristra/utils/fixed_vector.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 7e3af50..e3a0d7e 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -179,11 +179,12 @@ public:
     assert( size() < capacity() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
+    // the value may be one of our own elements, so copy it before shifting
+    auto new_value = value;
     // shift data to the right
-    auto d_last = std::next(d_first);
-    std::copy(d_first, end(), d_last );
+    std::move_backward(d_first, end(), std::next(end()) );
     // assign value
-    *d_first = value;
+    *d_first = std::move( new_value );
     // increment counter
     length_++;
     // return an iterator to the inserted value
@@ -195,11 +196,12 @@ public:
     assert( size() < capacity() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
+    // the value may be one of our own elements, so take it before shifting
+    auto new_value = std::move( value );
     // shift data to the right
-    auto d_last = std::next(d_first);
-    std::move(d_first, end(), d_last );
+    std::move_backward(d_first, end(), std::next(end()) );
     // assign value
-    *d_first = std::move( value );
+    *d_first = std::move( new_value );
     // increment counter
     length_++;
     // return an iterator to the inserted value
@@ -213,11 +215,12 @@ public:
     auto d_first = _validate_iterator( pos );
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
+    // the value may be one of our own elements, so copy it before shifting
+    auto new_value = value;
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::copy(d_first, end(), d_last );
+    std::move_backward(d_first, end(), std::next(end(), count) );
     // assign value
-    std::fill_n( d_first, count, value );
+    std::fill_n( d_first, count, new_value );
     // increment counter
     length_ += count;
     // return an iterator to the inserted value
@@ -238,8 +241,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::move(d_first, end(), d_last );
+    std::move_backward(d_first, end(), std::next(end(), count) );
     // assign values
     std::copy( first, last, d_first );
     // increment counter
@@ -258,8 +260,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return start;
     // otherwise, shift data to the right
-    auto next = std::next(start, count);
-    std::move(start, end(), next );
+    std::move_backward(start, end(), std::next(end(), count) );
     // assign values
     std::copy( ilist.begin(), ilist.end(), start );
     // increment counter
-- 
2.43.0


From 694f27e16550b4bde1ea449605f7482ebc76ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:00 +0000
Subject: [PATCH 03/77] fix: fixed_vectors of different sizes are not equal

---
 ristra/utils/fixed_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index e3a0d7e..15f3cf7 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -384,7 +384,8 @@ template< class T, std::size_t N >
 bool operator==( const fixed_vector<T,N>& lhs,
                  const fixed_vector<T,N>& rhs )
 {
-  return std::equal( lhs.begin(), lhs.end(), rhs.begin() );
+  return lhs.size() == rhs.size() &&
+    std::equal( lhs.begin(), lhs.end(), rhs.begin() );
 }
     
 } // namespace utils
-- 
2.43.0


From e836b54cd49a03f108a6fa0fca12f20da1e42baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:00 +0000
Subject: [PATCH 04/77] fix: fixed_vector erase of an empty range returns its
 position

---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 15f3cf7..5cf6438 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -293,7 +293,7 @@ public:
     // if empty, nothing to do    
     if ( empty() ) return end();
     // if first == last, nothring to do
-    if ( first == last ) return begin();
+    if ( first == last ) return _validate_iterator( last );
     // get the number of deleted elements
     auto count = std::distance( first, last );
     // convert to a non-const iterator
-- 
2.43.0


From cbf8bd0285efce16de14f629c03a5b7b7bc73c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:00 +0000
Subject: [PATCH 05/77] fix: fixed_vector data() and reverse iterators can be
 used

---
 ristra/utils/fixed_vector.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 5cf6438..f5870cf 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -134,8 +134,8 @@ public:
   constexpr reference front() { return data_[0]; }
   constexpr reference back()  { return data_[size()-1]; }
         
-  constexpr const_pointer data() const { return data_; }
-  constexpr pointer data() { return data_; }
+  constexpr const_pointer data() const { return data_.data(); }
+  constexpr pointer data() { return data_.data(); }
         
 
   //============================================================================
@@ -148,10 +148,12 @@ public:
   constexpr const_iterator end() const { return std::next(data_.begin(), length_); }
   constexpr const_iterator cbegin() const { return begin(); }
   constexpr const_iterator cend() const { return end(); }
-  reverse_iterator rbegin() const {
+  reverse_iterator rbegin() { return reverse_iterator(end()); }
+  reverse_iterator rend() { return reverse_iterator(begin()); }
+  const_reverse_iterator rbegin() const {
     return const_reverse_iterator(end());
   }
-  reverse_iterator rend() const {
+  const_reverse_iterator rend() const {
     return const_reverse_iterator(begin());
   }
   const_reverse_iterator crbegin() const { return rbegin(); }
-- 
2.43.0


From 6a92ec38e389468100889bab2e67d0d8bb6843d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:22 +0000
Subject: [PATCH 06/77] fix: scalar compound assignment reads its operand once,
 so it may alias an element

---
 ristra/math/array.h       | 8 ++++----
 ristra/math/multi_array.h | 8 ++++----
 ristra/math/tuple.h       | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 55277ef..470ebe5 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -360,7 +360,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator+=(const T2 & val) {
+  auto & operator+=(T2 val) {
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] += val;    
     return *this;
@@ -380,7 +380,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator-=(const T2 & val) {
+  auto & operator-=(T2 val) {
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] -= val;    
     return *this;
@@ -401,7 +401,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator*=(const T2 & val) {
+  auto & operator*=(T2 val) {
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] *= val;    
     return *this;
@@ -421,7 +421,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator/=(const T2 & val) {
+  auto & operator/=(T2 val) {
     auto inv = static_cast<T>(1) / val;
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] *= inv;
diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index b75828d..83fbf0f 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -476,7 +476,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator+=(const T2 & val) {
+  auto & operator+=(T2 val) {
     for ( counter_type i=0; i<elements; i++ ) elems_[i] += val;    
     return *this;
   }
@@ -494,7 +494,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator-=(const T2 & val) {
+  auto & operator-=(T2 val) {
     for ( counter_type i=0; i<elements; i++ ) elems_[i] -= val;    
     return *this;
   }
@@ -513,7 +513,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator*=(const T2 & val) {
+  auto & operator*=(T2 val) {
     for ( counter_type i=0; i<elements; i++ ) elems_[i] *= val;    
     return *this;
   }
@@ -531,7 +531,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator/=(const T2 & val) {
+  auto & operator/=(T2 val) {
     auto inv = static_cast<T>(1) / val;
     for ( counter_type i=0; i<elements; i++ ) elems_[i] *= inv;
     return *this;
diff --git a/ristra/math/tuple.h b/ristra/math/tuple.h
index 7d37c31..7f21da5 100644
--- a/ristra/math/tuple.h
+++ b/ristra/math/tuple.h
@@ -60,7 +60,7 @@ void plus_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 }
 
 template <typename... Types, typename U>
-void plus_equal( tuple<Types...>& lhs, const U & rhs )
+void plus_equal( tuple<Types...>& lhs, U rhs )
 {
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
@@ -128,7 +128,7 @@ void minus_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 }
 
 template <typename... Types, typename U>
-void minus_equal( tuple<Types...>& lhs, const U & rhs )
+void minus_equal( tuple<Types...>& lhs, U rhs )
 {
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
@@ -194,7 +194,7 @@ void multiplies_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 }
 
 template <typename... Types, typename U>
-void multiplies_equal( tuple<Types...>& lhs, const U & rhs )
+void multiplies_equal( tuple<Types...>& lhs, U rhs )
 {
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
@@ -263,7 +263,7 @@ void divides_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 }
 
 template <typename... Types, typename U>
-void divides_equal( tuple<Types...>& lhs, const U & rhs )
+void divides_equal( tuple<Types...>& lhs, U rhs )
 {
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
-- 
2.43.0


From b95065b4f96b8430debf5843accb593b782d6820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:23 +0000
Subject: [PATCH 07/77] fix: dividing an array by a scalar divides its elements
 (integers lost the quotient)

---
 ristra/math/array.h       | 6 ++----
 ristra/math/multi_array.h | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 470ebe5..49b5bfe 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -422,9 +422,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(T2 val) {
-    auto inv = static_cast<T>(1) / val;
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= inv;
+      elems_[i] /= val;
     return *this;
   }
 
@@ -687,11 +686,10 @@ operator/( const array<T,N>& lhs,
            const U& rhs )
 {
   array<T,N> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename array<T,N>::counter_type;
   constexpr auto len = static_cast<counter_type>(N);
   for ( counter_type i=0; i<len; i++ )
-    tmp[i] = lhs[i] * inv;
+    tmp[i] = lhs[i] / rhs;
   return tmp;
 }
 
diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index 83fbf0f..bdce731 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -532,8 +532,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(T2 val) {
-    auto inv = static_cast<T>(1) / val;
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= inv;
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= val;
     return *this;
   }
 
@@ -875,10 +874,9 @@ operator/( const multi_array<T,N...>& lhs,
            const U& rhs )
 {
   multi_array<T,N...> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename multi_array<T,N...>::counter_type;
   for ( counter_type i=0; i<multi_array<T,N...>::elements; i++ ) 
-    tmp[i] = lhs[i] * inv;    
+    tmp[i] = lhs[i] / rhs;    
   return tmp;
 }
 
-- 
2.43.0


From b346d33e53ef020c63ca81529d050906448cf942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:23 +0000
Subject: [PATCH 08/77] fix: dimensioned_array compound assignment with itself
 is not skipped

---
 ristra/utils/dimensioned_array.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ristra/utils/dimensioned_array.h b/ristra/utils/dimensioned_array.h
index c21656c..8e1d36a 100644
--- a/ristra/utils/dimensioned_array.h
+++ b/ristra/utils/dimensioned_array.h
@@ -204,11 +204,9 @@ public:
       dimensioned_array__ const & rhs                                          \
     )                                                                          \
     {                                                                          \
-      if(this != &rhs) {                                                       \
-        for(size_t i{0}; i<DIMENSION; i++) {                                   \
-          data_[i] op rhs[i];                                                  \
-        } /* for */                                                            \
-      } /* if */                                                               \
+      for(size_t i{0}; i<DIMENSION; i++) {                                     \
+        data_[i] op rhs[i];                                                    \
+      } /* for */                                                              \
                                                                                \
       return *this;                                                            \
     }
-- 
2.43.0


From 0364547ff0b0260358b843abaee600a12adfb82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:56 +0000
Subject: [PATCH 09/77] fix: column major strides multiply the leading
 dimensions

---
 ristra/math/multi_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index bdce731..513084a 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -86,7 +86,7 @@ class col_major_ordering {
   constexpr size_type stride(const size_type * ids, const size_type & N )
   {
     if ( N > 0 )
-      return ids[1] * stride( &ids[1], N-1 );
+      return ids[0] * stride( &ids[1], N-1 );
     else 
       return 1;
   }
@@ -99,7 +99,7 @@ class col_major_ordering {
   template< size_type N, size_type... I >
   constexpr std::array<size_type, N> ordering_helper( const size_type (&ids)[N], std::index_sequence<I...> ) 
   {
-    return {{ stride( &ids[N-I-1], I )... }};
+    return {{ stride( ids, I )... }};
   }
   
 public:
-- 
2.43.0


From 135fd2053186c02752fd546180d3520a6e4b3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:57 +0000
Subject: [PATCH 10/77] fix: averages of negative integers divide by a signed
 count

---
 ristra/math/general.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index bf50433..4f7e489 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -42,7 +42,7 @@ average( T && t, Types&&... args )
 { 
   auto res( t ); // first one
   detail::average(res, std::forward<Types>(args)...); // sum the rest
-  res /=  ( sizeof...(args) + 1 ); // divide by number
+  res /= static_cast<int>( sizeof...(args) + 1 ); // divide by number
   return res;
 }
 
@@ -83,7 +83,7 @@ auto average( const V<T, Args...> & vals )
   assert( vals.size() > 0 && "not enough values" );
   T avg(0);
   for ( const auto & x : vals ) avg += x;
-  avg /= vals.size();
+  avg /= static_cast<std::ptrdiff_t>( vals.size() );
   return avg;
 }
 
-- 
2.43.0


From 43319599ab20874ef3c56a1f70022aa00117ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:57 +0000
Subject: [PATCH 11/77] fix: elementwise min and max of dynamic containers size
 their result

---
 ristra/math/general.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index 4f7e489..a8d6de0 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -286,7 +286,7 @@ auto min(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto min(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  C<T,Args...> tmp(a);
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::min( a[i], b[i] );
   return tmp;
@@ -315,7 +315,7 @@ auto max(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto max(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  C<T,Args...> tmp(a);
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::max( a[i], b[i] );
   return tmp;
-- 
2.43.0


From a699fae29d1996170376f63c82f78820edca35de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:57 +0000
Subject: [PATCH 12/77] fix: matrix_vector computes alpha*A*x + beta*y

---
 ristra/math/matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/math/matrix.h b/ristra/math/matrix.h
index 3c7739b..f3306e8 100644
--- a/ristra/math/matrix.h
+++ b/ristra/math/matrix.h
@@ -304,8 +304,10 @@ void matrix_vector(
   C<T,D1> & y )
 {
   for ( utils::select_counter_t<D1> i = 0; i<D1; i++ ) {
+    T sum = 0;
     for ( utils::select_counter_t<D2>  j = 0; j<D2; j++ )
-      y[i] = alpha * A(i,j) * x[j] + beta * y[i];
+      sum += A(i,j) * x[j];
+    y[i] = alpha * sum + beta * y[i];
   }
 }
 //! @}
-- 
2.43.0


From 34b80a64cadfc6c7a0dcffccf9ed2352d4123dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:13 +0000
Subject: [PATCH 13/77] fix: the determinant of a 2D jacobian only reads its
 2x2 entries

---
 ristra/elements/elements.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 1b18817..c1646bb 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -553,12 +553,18 @@ void jacobian(
     
 
    //calcualate the determinant of the jacobian for 2D/3D matrices
-   det_J =  J_matrix[0][0] *(J_matrix[1][1] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][1] * J_matrix[1][2])*abs(dim-2))  //group 1
-         -  J_matrix[0][1] *(J_matrix[1][0] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][0] * J_matrix[1][2])*abs(dim-2))  // group 2
-         +  J_matrix[0][2] *(J_matrix[1][0] *  J_matrix[2][1] 
-         -  J_matrix[2][0] * J_matrix[1][1])*(abs(dim-2)); // group 3 
+   if (dim == 2) {
+      det_J =  J_matrix[0][0] * J_matrix[1][1] 
+            -  J_matrix[0][1] * J_matrix[1][0];
+   }
+   else {
+      det_J =  J_matrix[0][0] *(J_matrix[1][1] * J_matrix[2][2] 
+            -  J_matrix[2][1] * J_matrix[1][2])  //group 1
+            -  J_matrix[0][1] *(J_matrix[1][0] * J_matrix[2][2] 
+            -  J_matrix[2][0] * J_matrix[1][2])  // group 2
+            +  J_matrix[0][2] *(J_matrix[1][0] * J_matrix[2][1] 
+            -  J_matrix[2][0] * J_matrix[1][1]); // group 3 
+   }
    } // end of jacobian function
 
 //defining the jacobian for 4D elements
-- 
2.43.0


From 8001791a2c0e52d32342093d1d231b2864bd9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:13 +0000
Subject: [PATCH 14/77] fix: the inverse of a 3D jacobian is the adjugate over
 the determinant

---
 ristra/elements/elements.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index c1646bb..8dc74e6 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -665,16 +665,16 @@ void jacobian_inverse_3d(
    real_t A_32 = jacobian[0][2]*jacobian[1][0] 
                  - jacobian[1][2]*jacobian[0][0];
 
-   real_t A_13 = jacobian[1][0]*jacobian[1][1] 
+   real_t A_13 = jacobian[1][0]*jacobian[2][1] 
                  - jacobian[2][0]*jacobian[1][1];
  
-   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_21 
-                + jacobian[0][2]*A_31;
+   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_12 
+                + jacobian[0][2]*A_13;
 
    J_inverse_matrix = {
-                      {A_11/det, A_12/det, A_13/det},
-                      {A_21/det, A_22/det, A_23/det},
-                      {A_31/det, A_32/det, A_33/det},
+                      {A_11/det, A_21/det, A_31/det},
+                      {A_12/det, A_22/det, A_32/det},
+                      {A_13/det, A_23/det, A_33/det},
                       };
 
     } // end of inverse jacobian 
-- 
2.43.0


From 9cedba134c895b5c1b4311399b3c8c4618474abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:13 +0000
Subject: [PATCH 15/77] fix: cofactor of the third diagonal entry of a 4D
 inverse jacobian

---
 ristra/elements/elements.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 8dc74e6..c46b1b0 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -780,7 +780,7 @@ void jacobian_inverse_4d(
            - m[4]  * m[1] * m[15] 
            + m[4]  * m[3] * m[13] 
            + m[12] * m[1] * m[7] 
-           - m[12] * m[3] * m[6];
+           - m[12] * m[3] * m[5];
 
    inv[14] =-m[0]  * m[5] * m[14] 
            + m[0]  * m[6] * m[13] 
-- 
2.43.0


From 0342f93463325f05c10872606e76e934adcc63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:13 +0000
Subject: [PATCH 16/77] fix: the 12 node quad basis is the cubic one it
 interpolates with

---
 ristra/elements/elements.cc | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index c46b1b0..fc3fbbc 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -1257,26 +1257,28 @@ void Quad_12_2D::basis(
 
    // calculate the shape functions for node 0,1,2,3(xi,eta)
    for( int this_vert = 0; this_vert < 4; this_vert++ ){
-      basis[this_vert] = 1.0/4.0
-         * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
-         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1])
-         * (xi_2D_point[0]*ref_vert[this_vert][0] 
-         +  xi_2D_point[1]*ref_vert[this_vert][1] -1);
+      basis[this_vert] = 1.0/32.0
+         * (1 + ref_vert[this_vert][0] * xi_2D_point[0])
+         * (1 + ref_vert[this_vert][1] * xi_2D_point[1])
+         * (9.0 * (xi_2D_point[0] * xi_2D_point[0] 
+         +  xi_2D_point[1] * xi_2D_point[1]) - (10.0));
    } // end for this_vert
 
 
-   // calculate the shape functions for node 4,6(xi,eta)
-   for( int this_vert = 4; this_vert <= 6; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
-         * (1.0 - xi_2D_point[0]*xi_2D_point[0])
-         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1]);
+   // calculate the shape functions for node 4-7(xi,eta)
+   for( int this_vert = 4; this_vert <= 7; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
+         * (1 - xi_2D_point[0] * xi_2D_point[0])
+         * (1 + xi_2D_point[1] * ref_vert[this_vert][1])
+         * (1 + 9.0 * xi_2D_point[0] * ref_vert[this_vert][0]);
    } // end for this_vert
 
-   // calculate the shape functions for node 5,7 (xi,eta)
-   for( int this_vert = 5; this_vert <= 7; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
-         * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
-         * (1.0 - xi_2D_point[1]*xi_2D_point[1]);
+   // calculate the shape functions for node 8-11 (xi,eta)
+   for( int this_vert = 8; this_vert <= 11; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
+         * (1 + xi_2D_point[0] * ref_vert[this_vert][0])
+         * (1 - xi_2D_point[1] * xi_2D_point[1])
+         * (1 + 9.0 * xi_2D_point[1] * ref_vert[this_vert][1]);
    } // end for this_vert
 }// end of quad12 basis functions
 
-- 
2.43.0


From 2a0c97eab06ee66afbe024d6f75838241dc7e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:13 +0000
Subject: [PATCH 17/77] fix: physical positions of arbitrary order elements
 have every coordinate

---
 ristra/elements/elements.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index fc3fbbc..95d4e20 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2290,8 +2290,11 @@ void QuadN::physical_position (
    int nodes = orderN + 1;
    int numnodes_2d = nodes * nodes;
 
+   for (int dim = 0; dim < 2; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_2d; this_vert++ ){
-      for (int dim = 0; dim < 1; dim++){
+      for (int dim = 0; dim < 2; dim++){
          x_point[dim] += lag_nodes_2d[this_vert][dim]*lag_basis_2d[this_vert];
       } // end for dim
    } // end for this_vert
@@ -2572,8 +2575,11 @@ void HexN::physical_position (
    int nodes = orderN + 1;
    int numnodes_3d = nodes * nodes * nodes;
 
+   for (int dim = 0; dim < 3; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_3d; this_vert++ ){
-      for (int dim = 0; dim < 2; dim++){
+      for (int dim = 0; dim < 3; dim++){
          x_point[dim] += lag_nodes[this_vert][dim]*lag_basis_3d[this_vert];
       } // end for dim
    } // end for this_vert
-- 
2.43.0


From aff4a9979d8dbf081b7fd187d541aefd2e2b70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:13 +0000
Subject: [PATCH 18/77] fix: the tesseract uses its reference vertices, not an
 uninitialised member

---
 ristra/elements/elements.cc | 2 +-
 ristra/elements/elements.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 95d4e20..9e66e98 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2765,7 +2765,7 @@ void HexN::basis_partials (
 
 int  num_nodes = 16;
 
-real_t ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
+real_t Tess16::ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
    {
    // Interior cube bottom
    {-1.0, -1.0, -1.0, -1.0},//0
diff --git a/ristra/elements/elements.h b/ristra/elements/elements.h
index 85739d0..c5f6523 100644
--- a/ristra/elements/elements.h
+++ b/ristra/elements/elements.h
@@ -744,7 +744,7 @@ class Tess16: public Element4D {
    protected:
       int  num_nodes;
 
-      real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
+      static real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
 
 
 
-- 
2.43.0


From 5623fc2a22ef437591c8960d89ee192c65e5a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:57 +0000
Subject: [PATCH 19/77] fix: contiguous_bounds of an array has strides, not
 extents, as its strides

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index d56c5b3..77aa1fa 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1040,7 +1040,7 @@ protected:
   constexpr contiguous_bounds( 
     ArrayType &, std::index_sequence<I...> ) noexcept : 
     bounds_( std::extent<ArrayType, I>::value... ),
-    strides_( std::extent<ArrayType, I>::value... )
+    strides_( detail::make_strides<index_type>{}( std::extent<ArrayType, I>::value... ) )
   { };  
 
   /// @}
-- 
2.43.0


From afdf512ca2643c53b99554da4413ef4e5dbbb9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 20/77] fix: bounds iterators of any rank can be advanced and
 are ordered by position

---
 ristra/utils/array_view.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 77aa1fa..78b3dbe 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1433,11 +1433,16 @@ public:
   constexpr bounds_iterator& operator+=(difference_type n) noexcept
   {
     auto linear_idx = linearize(current_) + n;
-    std::remove_const_t<value_type> stride = 0;
+    std::remove_const_t<value_type> stride{};
     stride[rank - 1] = 1;
     for (int i = rank - 1; i-- > 0;) {
       stride[i] = stride[i + 1] * bounds_[i + 1];
     }
+    // one past the last index is represented by the bounds
+    if ( linear_idx == stride[0] * bounds_[0] ) {
+      current_ = bounds_;
+      return *this;
+    }
     for (int i = 0; i < rank; ++i) {
       current_[i] = linear_idx / stride[i];
       linear_idx = linear_idx % stride[i];
@@ -1492,7 +1497,7 @@ public:
   //! \brief test less-than
   //! \param [in] rhs the object on the right hand side of the operator
   constexpr bool operator<(const bounds_iterator& rhs) const noexcept
-  { return (current_ < rhs.current_); }
+  { return linearize(current_) < linearize(rhs.current_); }
 
   //! \brief test <=
   //! \param [in] rhs the object on the right hand side of the operator
-- 
2.43.0


From 3e06b1622ce9a19794afcc74cf307ccd85a589b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 21/77] fix: checked access through a view can throw

---
 ristra/utils/array_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 78b3dbe..9d66e5d 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2276,7 +2276,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const 
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the strided_array_view.    
@@ -2785,7 +2785,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const 
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3294,7 +3294,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const 
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3334,7 +3334,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] slice the index
   //! \return a reference to the indexed location
-  constexpr auto slice( size_type idx ) const noexcept
+  constexpr auto slice( size_type idx ) const
   { 
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
-- 
2.43.0


From c07df5259f59c62c289daddeaf937c2644d3f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 22/77] fix: a view is empty when it has no elements

---
 ristra/utils/array_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 9d66e5d..d675c1d 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2223,7 +2223,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr || size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -2733,7 +2733,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr || size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -3241,7 +3241,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr || size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
-- 
2.43.0


From 91e20b2358b403d73291e560323f427f25e6f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 23/77] fix: views over the same data but different elements
 are not equal

---
 ristra/utils/array_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index d675c1d..841d348 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2426,7 +2426,7 @@ public:
   constexpr bool operator==(const strided_array_view<OtherValueType, OtherRank>& other) const noexcept
   {
     return bounds_.size() == other.bounds_.size() &&
-      (data_ == other.data_ || std::equal(this->begin(), this->end(), other.begin()));
+      std::equal(this->begin(), this->end(), other.begin());
   }
 
   template <
@@ -2941,7 +2941,7 @@ public:
   constexpr bool operator==(const array_view<OtherValueType, OtherRank>& other) const noexcept
   {
     return bounds_.size() == other.bounds_.size() &&
-      (data_ == other.data_ || std::equal(this->begin(), this->end(), other.begin()));
+      std::equal(this->begin(), this->end(), other.begin());
   }
 
   template <
@@ -3461,7 +3461,7 @@ public:
     const static_array_view<OtherValueType, OtherFirstDim, OtherRestDims...>& other ) const noexcept
   {
     return bounds_.size() == other.bounds_.size() &&
-      (data_ == other.data_ || std::equal(this->begin(), this->end(), other.begin()));
+      std::equal(this->begin(), this->end(), other.begin());
   }
 
   template <
-- 
2.43.0


From 03a194fe5d2d24e5b25e84efe9c4adf12b6eacc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:28 +0000
Subject: [PATCH 24/77] fix: static views can be sliced, sectioned, converted
 and assigned, and view iterators assigned

---
 ristra/utils/array_view.h | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 841d348..5ba1748 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1563,7 +1563,7 @@ private:
   /// @{
 
   //! \brief storage for the bounds
-  value_type bounds_;
+  std::remove_const_t<value_type> bounds_;
   //! \brief storage for the current index
   std::remove_const_t<value_type> current_;
 
@@ -2838,7 +2838,7 @@ public:
   //! \param [in] bnds     the new bounds, if non is specified, keep old bounds
   //! \return a the new view
   constexpr strided_view section() const noexcept
-  { return *this; }
+  { return strided_view( data(), bounds_.as_index(), bounds_.strides() ); }
 
   constexpr strided_view section( const index_type & origin ) const noexcept
   { 
@@ -3109,7 +3109,7 @@ public:
   using reference = std::add_lvalue_reference_t<value_type>;
 
   //! \brief a constant version of the same view
-  using const_static_array_view = static_array_view<const_value_type, Rank>;
+  using const_static_array_view = static_array_view<const_value_type, FirstDim, RestDims...>;
 
   //! \brief a strided version of the same view
   using strided_view = strided_array_view<value_type, Rank>;
@@ -3124,7 +3124,7 @@ public:
 
 
   //! a sliced type
-  using sliced_type = slice_chooser< (Rank == 1),  value_type, RestDims... >;
+  using sliced_type = typename slice_chooser< (Rank == 1),  value_type, RestDims... >::type;
 
   /// @}
         
@@ -3181,6 +3181,7 @@ public:
   operator=(const static_array_view<ViewValueType, FirstDim, RestDims...>& rhs) noexcept
   {
     data_ = rhs.data();
+    return *this;
   }
 
   //! \brief single parameter container
@@ -3248,10 +3249,10 @@ public:
   { return bounds_; }
 
   //! \brief return the stride of the array
-  constexpr const auto & strides() const noexcept
+  constexpr auto strides() const noexcept
   { return bounds_.strides(); }
  
-  constexpr const auto & stride() const noexcept
+  constexpr auto stride() const noexcept
   { return bounds_.stride(); }
 
 
@@ -3327,7 +3328,7 @@ public:
   constexpr Ret operator[]( size_type idx ) const noexcept
   { 
     const auto ridx = idx * bounds_.stride();
-    return { bounds_.slice(), data_+ridx };
+    return { data_+ridx };
   }
 
   //! \brief slice an array, i.e. fix the most significant dimension
@@ -3350,13 +3351,13 @@ public:
   //! \param [in] bnds     the new bounds, if non is specified, keep old bounds
   //! \return a the new view
   constexpr strided_view section() const noexcept
-  { return *this; }
+  { return strided_view( data(), bounds_.as_index(), bounds_.strides() ); }
 
   constexpr strided_view section( const index_type & origin ) const noexcept
   { 
     assert( bounds().contains(origin) );
     auto bnds = bounds_.as_index() - origin;
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   constexpr strided_view section( 
@@ -3365,21 +3366,21 @@ public:
   { 
     assert( bounds_.contains(origin) );
     assert( origin + bnds <= bounds_.as_index() );    
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator strided_view() const 
   {
-    return strided_view( bounds_.as_index(), bounds_.strides(), data() );
+    return strided_view( data(), bounds_.as_index(), bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator dynamic_view() const 
   {
-    return dynamic_view( bounds_.as_index(), data() );
+    return dynamic_view( data(), typename dynamic_view::bounds_type( bounds_.as_index() ) );
   }
   
   /// @}
-- 
2.43.0


From cbede83f8cc80493cdc4899f98659e63a6c14db3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:11:08 +0000
Subject: [PATCH 25/77] fix: reading a Lua number as an integer keeps its value
 or fails

lua_tointeger yields 0 for a number with a fractional part, and the result was
narrowed to the requested type silently.
---
 ristra/embedded/embed_lua.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index fc15b0b..5f4f050 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -90,9 +90,16 @@ struct lua_value< T, std::enable_if_t< std::is_integral<T>::value > >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to int."
     );
-    auto i = lua_tointeger(s, index);
+    int is_integer = 0;
+    auto i = lua_tointegerx(s, index, &is_integer);
+    // the value has to be a whole number that the requested type can represent
+    if ( !is_integer || static_cast<lua_Integer>(static_cast<T>(i)) != i ||
+         (i < 0) != (static_cast<T>(i) < T{}) )
+      THROW_RUNTIME_ERROR( "Number " << lua_tonumber(s, index) <<
+        " cannot be represented by the requested integral type."
+      );
     lua_remove(s,index);
-    return i;
+    return static_cast<T>(i);
   }
 };
 
-- 
2.43.0


From 2540d479d4c7f4aca9bde8c5d1dd9fcb94d513d5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:11:08 +0000
Subject: [PATCH 26/77] fix: reading a Lua string keeps all of it

Strings were cut at the first NUL, and copied only after the value had been
taken off the stack, when Lua may already have collected it.
---
 ristra/embedded/embed_lua.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 5f4f050..86129c7 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -161,7 +161,10 @@ struct lua_value<std::string>
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to string."
     );
-    auto str = lua_tostring(s, index);
+    std::size_t len = 0;
+    auto ptr = lua_tolstring(s, index, &len);
+    // copy the string before removing it, lua may collect it afterwards
+    std::string str( ptr, len );
     lua_remove(s, index);
     return str;
   }
-- 
2.43.0


From 900eaf4331239de23705e188008ccd57825a628d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:11:08 +0000
Subject: [PATCH 27/77] fix: Lua tables are converted row by row only if the
 rows are tables

A matrix row that was not a table crashed in lua_rawgeti and one of the wrong
length was accepted; containers also ignored the stack index they were given.
---
 ristra/embedded/embed_lua.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 86129c7..60a04b9 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -191,13 +191,15 @@ struct lua_value< Vector<T,Allocator> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to vector."
     );
+    // elements get pushed above the table
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     // extract the results
     Vector<T,Allocator> res;
     res.reserve(n);
     for ( int i=1; i<=n; ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       res.emplace_back( lua_value<T>::get(s) );
     }
     // remove it from the stack
@@ -228,8 +230,10 @@ struct lua_value< Array<T,N> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to vector."
     );
+    // elements get pushed above the table
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     if ( n != N )
       THROW_RUNTIME_ERROR( 
         "Expecting array of size"<<N<<", stack array is size " << n
@@ -237,7 +241,7 @@ struct lua_value< Array<T,N> >
     // extract the results
     Array<T,N> res;
     for ( int i=1; i<=std::min(n,N); ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       res[i-1] = lua_value<T>::get(s);
     }
     // remove it from the stack
@@ -272,8 +276,10 @@ struct lua_value< Matrix<T,M,N> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to multiarray."
     );
+    // elements get pushed above the table
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     if ( n != M )
       THROW_RUNTIME_ERROR( 
         "Expecting array of size"<<M<<", stack array is size " << n
@@ -281,7 +287,12 @@ struct lua_value< Matrix<T,M,N> >
     // extract the results
     Matrix<T,M,N> res;
     for ( int i=1; i<=M; ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
+      // each row has to be a table of the right size too
+      if ( !lua_istable(s, -1) || lua_rawlen(s, -1) != N )
+        THROW_RUNTIME_ERROR(
+          "Expecting row " << i << " to be an array of size " << N
+        );
       for (int j=1; j<=N; ++j) {
         lua_rawgeti(s, -1, j); // push t[j]
         res(i-1,j-1) = lua_value<T>::get(s);
-- 
2.43.0


From b1418b56789c4e23ad16072961a584f9e57df2da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:11:08 +0000
Subject: [PATCH 28/77] fix: a wrapped Lua function refers to the copy it owns

---
 ristra/embedded/embed_lua.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 60a04b9..16022da 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -963,7 +963,7 @@ struct Lua_Func_Wrapper<std::function<Ret(Args...)>> {
 
   /**\brief Construct from reference to lua_result_t */
   explicit Lua_Func_Wrapper(lua_result_t & lf)
-    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(lf)
+    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(*plua_func_)
   {
   }
 
-- 
2.43.0


From ecf65c7964616f3105f1baa49405ed2fdd73ae0b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:11:08 +0000
Subject: [PATCH 29/77] fix: using a Lua state leaves its stack as it was

Failed conversions, lookups, calls and scripts left their values on the stack,
which eventually overflowed, and lua_pop(s, -1) dropped everything on it. Using
the result of a function that returns nothing read past an empty vector.
---
 ristra/embedded/embed_lua.h | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 16022da..847be9b 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -579,6 +579,18 @@ inline lua_ref_t make_lua_ref(const lua_state_ptr_t & state)
 
 class lua_t;
 
+/// \brief Restores the height of the lua stack when leaving a scope, whether
+/// normally or because of an exception.
+class lua_stack_guard_t {
+  lua_State * state_;
+  int top_;
+public:
+  explicit lua_stack_guard_t(lua_State * s) : state_(s), top_(lua_gettop(s)) {}
+  lua_stack_guard_t(const lua_stack_guard_t &) = delete;
+  lua_stack_guard_t & operator=(const lua_stack_guard_t &) = delete;
+  ~lua_stack_guard_t() { lua_settop(state_, top_); }
+};
+
 class lua_result_t : public lua_base_t {
 
   /// \brief The name of the object.
@@ -696,6 +708,8 @@ class lua_result_t : public lua_base_t {
   /// \remark The stack references are collected in reverse order.
   void push_last() const
   {
+    if ( refs_.empty() )
+      THROW_RUNTIME_ERROR("\"" << name_ << "\" has no value.");
     check_stack(1);
     refs_.back().push();
   }
@@ -768,6 +782,7 @@ public:
   explicit operator T() const {
     if ( refs_.size() != 1 )
       THROW_RUNTIME_ERROR( "Expecting 1 result, stack has " << refs_.size() );
+    lua_stack_guard_t guard(state());
     push_last();
     return lua_value<T>::get(state());
   }
@@ -783,6 +798,7 @@ public:
       THROW_RUNTIME_ERROR( 
         "Expecting "<<N<<" results, stack has " << refs_.size() 
       );
+    lua_stack_guard_t guard(state());
     push_all();
     Tup tup;
     get_results<Tup,0,Args...>(tup);
@@ -820,6 +836,7 @@ public:
   lua_result_t operator()(Args&&...args) const 
   {
     auto s = state();
+    lua_stack_guard_t guard(s);
     // get the current stack position ( the function and arguments will get
     // deleted from the stack after the function call )
     auto pos0 = lua_gettop(s);
@@ -846,12 +863,12 @@ public:
       print_last_row();
       THROW_RUNTIME_ERROR("Problem calling \"" << name_ << "\".");
     }
-    // make sure the result is non nill
-    check_result(name_);
     // figure out how much the stack grew
     pos1 = lua_gettop(s);
     auto num_results = pos1 - pos0;
     assert( num_results >= 0 );
+    // make sure the result is non nill
+    if ( num_results ) check_result(name_);
     // because there could be multiple results, get a reference to each one
     std::vector<lua_ref_t> ref_list;
     ref_list.reserve( num_results );
@@ -869,6 +886,8 @@ public:
   {
     auto s = state();
     auto new_name = name_+".[\""+key+"\"]";
+    // the table and the value get popped from the stack at the end
+    lua_stack_guard_t guard(s);
     // push the table onto the stack
     push_last();
     // make sure we are accessing a table
@@ -880,9 +899,8 @@ public:
     lua_rawget(s, -2);
     // get the size of the object
     auto len = lua_rawlen(s, -1);
-    // get a reference to the result, and pop the table from the stack
+    // get a reference to the result
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
@@ -895,6 +913,8 @@ public:
   {
     auto s = state();
     auto new_name = name_+"["+std::to_string(n)+"]";
+    // the table and the value get popped from the stack at the end
+    lua_stack_guard_t guard(s);
     // push the table onto the stack
     push_last();
     // make sure we are accessing a table
@@ -903,9 +923,8 @@ public:
     lua_rawgeti(s, -1, n);
     // get the size of the object
     auto len = lua_rawlen(s, -1);
-    // get a reference to the result, and pop the table from the stack
+    // get a reference to the result
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
@@ -1000,6 +1019,7 @@ public:
   /// \return The lua error code.
   bool run_string( const std::string & script )
   {
+    lua_stack_guard_t guard(state());
     auto ret = luaL_dostring(state(),script.c_str());
     if ( ret ) {
       print_last_row();
@@ -1012,6 +1032,7 @@ public:
   /// \param [in] file  The file to load.
   void loadfile( const std::string & file )
   {
+    lua_stack_guard_t guard(state());
     auto ret = luaL_dofile(state(),file.c_str());
     if ( ret ) {
       print_last_row();
-- 
2.43.0


From bc159b37e69c5d206fc4ace49217d3d31233e691 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:11:08 +0000
Subject: [PATCH 30/77] fix: an error while looking up a Lua global is
 reported, not fatal

---
 ristra/embedded/embed_lua.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 847be9b..afeb604 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -1047,8 +1047,22 @@ public:
   lua_result_t operator[]( const std::string & key ) const &
   {
     auto s = state();
-    // the function name
-    lua_getglobal(s, key.c_str());
+    lua_stack_guard_t guard(s);
+    // look it up in a protected call: the global table may have a metatable
+    // whose __index function raises an error
+    if ( !lua_checkstack(s, 2) )
+      THROW_RUNTIME_ERROR("Cannot grow stack accessing \"" << key << "\".");
+    lua_pushcfunction(s, [](lua_State * l) {
+      lua_pushglobaltable(l);
+      lua_insert(l, 1);
+      lua_gettable(l, 1);
+      return 1;
+    });
+    lua_pushlstring(s, key.c_str(), key.size());
+    if ( lua_pcall(s, 1, 1, 0) ) {
+      print_last_row();
+      THROW_RUNTIME_ERROR("Cannot access \"" << key << "\".");
+    }
     // get the size of the object
     auto len = lua_rawlen(s, -1);
     // return the global object with a pointer to a location in the stack
-- 
2.43.0


From 2d3cacd71f5a2cca12a71d18afef153ddc32b843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:35 +0000
Subject: [PATCH 31/77] fix: a Lua result can be read as a matrix

The conversion went through static_cast, which picked the matrix constructor
that takes a scalar.
---
 ristra/embedded/embed_lua.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index afeb604..2ce0ad4 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -810,13 +810,13 @@ public:
   /// \return The typecast value.
   template< typename T >
   T as() const {
-    return static_cast<T>(*this);
+    return this->operator T();
   }
   
   template< typename T >
   T as(const T & def ) const {
     if (empty()) return def;
-    else return static_cast<T>(*this);
+    else return this->operator T();
   }
   
   /// \brief Explicit type conversion operators for tuples.
-- 
2.43.0


From dfe6e1d41e61b874cbeb122080b2cdd086a57eb5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:18:05 +0000
Subject: [PATCH 32/77] fix: embed_python.h can be included from more than one
 source file

---
 ristra/embedded/embed_python.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 258cc43..3ad8f23 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -32,7 +32,7 @@ using python_char_t = wchar_t;
 ///////////////////////////////////////////////////////////////////////////////
 //! \brief Given a character array, return a python string.
 ///////////////////////////////////////////////////////////////////////////////
-auto make_python_string( const char * input ) 
+inline auto make_python_string( const char * input ) 
 {
 #if PY_MAJOR_VERSION < 3
   return std::string(input);
@@ -44,7 +44,7 @@ auto make_python_string( const char * input )
 ///////////////////////////////////////////////////////////////////////////////
 //! \brief Given a character array, return a python string.
 ///////////////////////////////////////////////////////////////////////////////
-auto make_python_string( std::string input ) 
+inline auto make_python_string( std::string input ) 
 {
   return make_python_string(input.c_str());
 }
@@ -60,17 +60,17 @@ auto as_python_char( T && input )
 
 
 
-void python_free( PyObject * py_obj )
+inline void python_free( PyObject * py_obj )
 {
   Py_DECREF(py_obj);
 }
 
-void python_check( void ) 
+inline void python_check( void ) 
 {
   if (PyErr_Occurred()) PyErr_Print();
 }
 
-void python_set_program_name( std::string name ) 
+inline void python_set_program_name( std::string name ) 
 {
 #if PY_MAJOR_VERSION < 3
   Py_SetProgramName( const_cast<char*>(name.c_str()) );
@@ -86,7 +86,7 @@ void python_set_program_name( std::string name )
 #endif
 }
 
-void python_initialize( void ) 
+inline void python_initialize( void ) 
 {
   Py_Initialize();
   if (!Py_IsInitialized()) {
@@ -95,17 +95,17 @@ void python_initialize( void )
   }
 }
 
-void python_finalize( void ) 
+inline void python_finalize( void ) 
 {
   Py_Finalize();
 }
 
-void python_run_string( std::string exec )
+inline void python_run_string( std::string exec )
 {
   PyRun_SimpleString( exec.c_str() );
 } 
 
-auto python_import( std::string name ) 
+inline auto python_import( std::string name ) 
 {
 #if PY_MAJOR_VERSION < 3
   auto pname = PyString_FromString( const_cast<char*>(name.c_str()) );
@@ -125,7 +125,7 @@ auto python_import( std::string name )
   return pmodule;
 }
 
-auto python_add_to_path( std::string path )
+inline auto python_add_to_path( std::string path )
 {
   auto syspath = PySys_GetObject((char*)"path");
   if (!syspath) {
@@ -153,7 +153,7 @@ auto python_add_to_path( std::string path )
   return syspath; 
 } 
 
-auto python_get_attribute( PyObject * py_module, std::string attribute )
+inline auto python_get_attribute( PyObject * py_module, std::string attribute )
 {
   auto attr = PyObject_GetAttrString(py_module, attribute.c_str());
   if (!attr) {
@@ -173,7 +173,7 @@ inline auto python_as_double( PyObject * py_value )
   return PyFloat_AsDouble( py_value );
 }
 
-auto python_get_value( long arg )
+inline auto python_get_value( long arg )
 {
   auto pvalue = PyLong_FromLong(arg);
   if (!pvalue) {
@@ -183,12 +183,12 @@ auto python_get_value( long arg )
   return pvalue;
 }
 
-auto python_get_value( int arg )
+inline auto python_get_value( int arg )
 {
   return python_get_value( static_cast<long>(arg) );
 }
 
-auto python_get_value( double arg )
+inline auto python_get_value( double arg )
 {
   auto pvalue = PyFloat_FromDouble(arg);
   if (!pvalue) {
@@ -198,7 +198,7 @@ auto python_get_value( double arg )
   return pvalue;
 }
 
-auto python_get_tuple_element( PyObject * py_tup, std::size_t i )
+inline auto python_get_tuple_element( PyObject * py_tup, std::size_t i )
 {
   auto n = PyTuple_GET_SIZE(py_tup);
   if (i>=n) {
-- 
2.43.0


From 82d2b58f8ada787c45e98ca0f02431dd6cac1b3e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:18:05 +0000
Subject: [PATCH 33/77] fix: embedded python keeps its reference counts
 balanced

A failing import or call leaked the module name or the arguments, and
python_add_to_path handed out a borrowed reference to sys.path that callers free.
---
 ristra/embedded/embed_python.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 3ad8f23..e541dbe 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -117,11 +117,11 @@ inline auto python_import( std::string name )
     THROW_RUNTIME_ERROR("Cannot decode module name \"" << name << "\"");
   }
   auto pmodule = PyImport_Import(pname);
+  Py_DECREF(pname);
   if (!pmodule) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot import module \"" << name << "\"");
   }
-  Py_DECREF(pname);
   return pmodule;
 }
 
@@ -141,7 +141,9 @@ inline auto python_add_to_path( std::string path )
     python_check();
     THROW_RUNTIME_ERROR("Cannot decode path \"" << path << "\"");
   }
-  if (PyList_Insert(syspath, 0, pname)) {
+  auto failed = PyList_Insert(syspath, 0, pname);
+  Py_DECREF(pname);
+  if (failed) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot insert path \"" << path << "\"");
   }
@@ -149,7 +151,8 @@ inline auto python_add_to_path( std::string path )
     python_check();
     THROW_RUNTIME_ERROR("Cannot set new path.");
   }
-  Py_DECREF(pname);
+  // the system path is borrowed, but the caller gets to free what we return
+  Py_INCREF(syspath);
   return syspath; 
 } 
 
@@ -278,11 +281,11 @@ auto python_call_function( PyObject * py_func, Args&&... args )
     THROW_RUNTIME_ERROR("Cannot initialize arguments.");
   }
   auto pval = PyObject_CallObject(py_func, pargs);
+  Py_DECREF(pargs);
   if (!pval) {
     python_check();
     THROW_RUNTIME_ERROR("Problem calling function.");
   }
-  Py_DECREF(pargs);
   return pval;
 }
 
-- 
2.43.0


From 260b48339d9847bf75bcf739d45ec6e8987df3fd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:18:05 +0000
Subject: [PATCH 34/77] fix: python functions without arguments can be called

---
 ristra/embedded/embed_python.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index e541dbe..eeb4d4c 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -237,11 +237,8 @@ void python_set_tuple_element( PyObject * py_tup, std::size_t i, Arg && arg )
 
 namespace detail {
 
-template< typename Arg >
-void python_build_args( PyObject * py_args, std::size_t i, Arg&& arg )
-{
-  python_set_tuple_element( py_args, i, std::forward<Arg>(arg) );
-}
+inline void python_build_args( PyObject *, std::size_t )
+{}
 
 template< typename Arg, typename... Args >
 void python_build_args( 
-- 
2.43.0


From c9f16a0aee43593454ddd1d1e21d27433e6147c9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:18:05 +0000
Subject: [PATCH 35/77] fix: converting a python value reports failures and
 accepts any number

A failed conversion returned -1 and left the error set, to surface in whatever
python code ran next. Since Python 3.10 a float was no longer convertible to long.
---
 ristra/embedded/embed_python.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index eeb4d4c..f7bb4b1 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -168,12 +168,29 @@ inline auto python_get_attribute( PyObject * py_module, std::string attribute )
 
 inline auto python_as_long( PyObject * py_value )
 {
-  return PyLong_AsLong( py_value );
+  // convert any kind of number, not only the ones that are integers already
+  auto pint = PyNumber_Check( py_value ) ? PyNumber_Long( py_value ) : nullptr;
+  if (!pint) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to long.");
+  }
+  auto value = PyLong_AsLong( pint );
+  Py_DECREF(pint);
+  if (value == -1 && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to long.");
+  }
+  return value;
 }
 
 inline auto python_as_double( PyObject * py_value )
 {
-  return PyFloat_AsDouble( py_value );
+  auto value = PyFloat_AsDouble( py_value );
+  if (value == -1. && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to double.");
+  }
+  return value;
 }
 
 inline auto python_get_value( long arg )
-- 
2.43.0


From f620d1e36f3fe540530c3b9d1bc650ad25107173 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:20:17 +0000
Subject: [PATCH 36/77] fix: a hard-coded input can be read more than once

get_value moved the value out of the registry.
---
 ristra/initialization/input_source.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index e4be871..f905a37 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -105,7 +105,7 @@ class hard_coded_source_t : public input_source<hard_coded_source_t>
     auto it = reg.find(k);
     bool found(false);
     if (reg.end() != it) {
-      t = std::move(it->second);
+      t = it->second;
       found = true;
     }
     return found;
-- 
2.43.0


From 82bc9d248c11e6a18168f5845c136423a71f3d00 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:20:17 +0000
Subject: [PATCH 37/77] fix: values in the base state of a Lua input file can
 be read

The base state is not one of the loaded tables, so every lookup of a value
registered there failed. Failed lookups rethrew a sliced copy of the exception.
---
 ristra/initialization/input_source.h | 31 ++++++++++++++++------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index f905a37..6f4aa7b 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -250,19 +250,18 @@ class lua_source_t : public input_source<lua_source_t>
     try {
       str_cr_t from_name = m_table_map.at(key);
       try {
-        auto & from_table = m_tables.at(from_name);
         // use lua key (not arg key) in table
-        auto lua_val = from_table[l_key];
+        auto lua_val = look_up(from_name, l_key);
         sz = lua_val.size();
       }  catch (std::exception & x) {
         printf("%s:%i Failed to find the table '%s' for the key '%s'\n",
           __PRETTY_FUNCTION__, __LINE__, from_name.c_str(),key.c_str());
-        throw x;
+        throw;
       }
     } catch (std::exception & x) {
       printf("%s:%i Failed to find any table associated with key '%s'\n",
         __PRETTY_FUNCTION__, __LINE__, key.c_str());
-      throw x;
+      throw;
     }
     return sz;
   } // get_size
@@ -279,9 +278,8 @@ class lua_source_t : public input_source<lua_source_t>
       try {
         str_cr_t from_name = ls.m_table_map.at(k);
         try {
-          auto & from_table = ls.m_tables.at(from_name);
           // use lua key (not arg key) in table
-          auto lua_val = from_table[l_key];
+          auto lua_val = ls.look_up(from_name, l_key);
           if (lua_val.empty()) {
             found = false;
           }
@@ -291,12 +289,12 @@ class lua_source_t : public input_source<lua_source_t>
         } catch (std::exception & x) {
           printf("%s:%i Failed to find table '%s'\n", __PRETTY_FUNCTION__,
             __LINE__, from_name.c_str());
-          throw x;
+          throw;
         }
       } catch (std::exception & x) {
         printf("%s:%i Failed to find table associated with key '%s'\n",
           __PRETTY_FUNCTION__, __LINE__, k.c_str());
-        throw x;
+        throw;
       }
       return found;
     }
@@ -319,7 +317,7 @@ class lua_source_t : public input_source<lua_source_t>
     } catch (std::exception & x) {
       printf("%s:%i Failed to find table named '%s'\n",
         __PRETTY_FUNCTION__, __LINE__, table_name.c_str());
-      throw x;
+      throw;
     }
   } // get_table
 
@@ -330,10 +328,9 @@ class lua_source_t : public input_source<lua_source_t>
     str_cr_t l_key(1 == m_lua_key.count(k) ? m_lua_key[k] : k);
     // now recover the table to look in
     str_cr_t from_name = m_table_map.at(k);
-    auto & from_table = m_tables.at(from_name);
     // use lua key in table
     bool found = true;
-    embedded::lua_result_t lua_result = from_table[l_key];
+    embedded::lua_result_t lua_result = look_up(from_name, l_key);
     if (lua_result.empty()) {
       found = false;
     }
@@ -341,6 +338,15 @@ class lua_source_t : public input_source<lua_source_t>
   } // get_lua_result_raw
 
  private:
+  /**\brief Look up a Lua key in a table, or in the base state. */
+  embedded::lua_result_t look_up(str_cr_t from_name, str_cr_t l_key) const
+  {
+    if ("base_state" == from_name) {
+      return m_lua_state[l_key];
+    }
+    return m_tables.at(from_name)[l_key];
+  } // look_up
+
   void load_table(str_cr_t load_name)
   {
     str_cr_t from_name = m_table_map[load_name];
@@ -385,10 +391,9 @@ struct lua_source_t::value_getter<embedded::lua_result_uptr_t> {
     str_cr_t l_key(1 == ls.m_lua_key.count(k) ? ls.m_lua_key[k] : k);
     // now recover the table to look in
     str_cr_t from_name = ls.m_table_map.at(k);
-    auto & from_table = ls.m_tables.at(from_name);
     // use lua key in table
     bool found = true;
-    auto lua_val = from_table[l_key];
+    auto lua_val = ls.look_up(from_name, l_key);
     if (lua_val.empty()) {
       found = false;
     }
-- 
2.43.0


From 617901d530cbfea632dfdf87193a8ce936425818 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:20:17 +0000
Subject: [PATCH 38/77] fix: registering a Lua value or table replaces what was
 there before

A table registered under another Lua key was looked up by its own name, one that
was registered again kept its old contents, and a value that was registered again
without a Lua key kept the old one.
---
 ristra/initialization/input_source.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index 6f4aa7b..caef08c 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -219,6 +219,9 @@ class lua_source_t : public input_source<lua_source_t>
     if (!lua_key.empty()) {
       m_lua_key[key] = lua_key;
     }
+    else {
+      m_lua_key.erase(key);
+    }
     return will_replace;
   }
 
@@ -350,11 +353,13 @@ class lua_source_t : public input_source<lua_source_t>
   void load_table(str_cr_t load_name)
   {
     str_cr_t from_name = m_table_map[load_name];
+    str_cr_t l_key(
+      1 == m_lua_key.count(load_name) ? m_lua_key[load_name] : load_name);
     if ("base_state" == from_name) {
-      m_tables.emplace(load_name, lua_try_access(m_lua_state, load_name));
+      m_tables.insert_or_assign(load_name, lua_try_access(m_lua_state, l_key));
     } else {
       embedded::lua_result_t & from_state = m_tables.at(from_name);
-      m_tables.emplace(load_name, lua_try_access(from_state, load_name));
+      m_tables.insert_or_assign(load_name, lua_try_access(from_state, l_key));
     }
     // printf("%s:%i Loaded table
     // '%s'\n",__FUNCTION__,__LINE__,load_name.c_str());
-- 
2.43.0


From 36035ae4a9f5e1308e2928a133218dc723140a93 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:20:17 +0000
Subject: [PATCH 39/77] fix: inputs unknown to the Lua source fall back to the
 hard-coded one

get_value reports whether the key was found, but threw for a key that had not
been associated with a Lua table.
---
 ristra/initialization/input_source.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index caef08c..e920dc1 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -277,6 +277,10 @@ class lua_source_t : public input_source<lua_source_t>
       // check if there is a Lua key distinct from k
       str_cr_t l_key(1 == ls.m_lua_key.count(k) ? ls.m_lua_key[k] : k);
       bool found = true;
+      // a key that belongs to no table is not in this source
+      if (0 == ls.m_table_map.count(k)) {
+        return false;
+      }
       // now recover the table to look in
       try {
         str_cr_t from_name = ls.m_table_map.at(k);
@@ -394,6 +398,10 @@ struct lua_source_t::value_getter<embedded::lua_result_uptr_t> {
   {
     // check if there is a Lua key distinct from k
     str_cr_t l_key(1 == ls.m_lua_key.count(k) ? ls.m_lua_key[k] : k);
+    // a key that belongs to no table is not in this source
+    if (0 == ls.m_table_map.count(k)) {
+      return false;
+    }
     // now recover the table to look in
     str_cr_t from_name = ls.m_table_map.at(k);
     // use lua key in table
-- 
2.43.0


From 918c5ce638fdbd376d11300c7870927ec2c264d4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:20:17 +0000
Subject: [PATCH 40/77] fix: resolving inputs again replaces functions and the
 list of failures

Like any other input, a function takes the value of the latest resolution, and
targets that resolve now are no longer listed as failed.
---
 ristra/initialization/input_engine.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 938e6d0..9e7f071 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -429,6 +429,7 @@ class input_engine_t
       target_set_t & targets(inp.get_target_set<T>());
       registry<T> & the_registry(inp.get_registry<T>());
       failed_set_t & failures(inp.get_failed_target_set<T>());
+      failures.clear();
       bool missed_any(false);
       for (auto target : targets) {
         bool found_target(false);
@@ -484,6 +485,7 @@ class input_engine_t
       target_set_t & targets(inp.get_target_set<func_t>());
       registry<func_t> & hc_registry(inp.get_registry<func_t>());
       failed_set_t & failures(inp.get_failed_target_set<func_t>());
+      failures.clear();
       bool missed_any(false);
       for (auto target : targets) {
         bool found_target(false);
@@ -504,12 +506,7 @@ class input_engine_t
           func_t f;
           found_target = hard_coded_source->get_value(target, f);
           if (found_target) {
-            // auto ins_pr =
-            hc_registry.insert(std::make_pair(target, f));
-            // bool inserted = ins_pr.second;
-            // Could have some error checking on whether the thing was
-            // inserted: if it weren't, that might mean this key is already
-            // inhabited, and that would be unexpected.
+            hc_registry[target] = f;
             continue;
           }
         }
@@ -594,7 +591,7 @@ class input_engine_t
         func_t f;
         found_target = hard_coded_source->get_value(target, f);
         if (found_target) {
-          hc_registry.insert(std::make_pair(target, f));
+          hc_registry[target] = f;
         }
       }
       return found_target;
-- 
2.43.0


From 6d895d616bb4d0c6a608e6e2abf509a42d9e6eb9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:20:17 +0000
Subject: [PATCH 41/77] fix: the validity of an initial value that is a
 function can be queried

---
 ristra/initialization/init_value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/initialization/init_value.h b/ristra/initialization/init_value.h
index c6b95fd..3bb1a2c 100644
--- a/ristra/initialization/init_value.h
+++ b/ristra/initialization/init_value.h
@@ -111,7 +111,7 @@ class init_value_t
       return false;
     }
     input_engine ie;
-    T & t(ie.template get_value<T>(full_name()));
+    get_return_t t(ie.template get_value<T>(full_name()));
     bool valid = m_valid(t);
     m_status = valid ? status_t::valid : status_t::invalid;
     return valid;
-- 
2.43.0


From 8bcb119845d7874f1b2542e2c5d7aa474a9b5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 42/77] fix: replacing an empty string ends and changes nothing

---
 ristra/utils/string_utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 9ea2e6f..88be089 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -33,6 +33,7 @@ namespace utils {
 ////////////////////////////////////////////////////////////////////////////////
 inline
 auto replace_all(std::string str, const std::string & from, const std::string & to) {
+  if (from.empty()) return str;
   size_t start_pos = 0;
   while((start_pos = str.find(from, start_pos)) != std::string::npos) {
     str.replace(start_pos, from.length(), to);
-- 
2.43.0


From d29539c4a48607c0304c37252bd619aedffa6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 43/77] fix: a dot in a directory name does not start a file
 extension

---
 ristra/utils/string_utils.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 88be089..a65d695 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -117,7 +117,8 @@ std::string file_extension(const std::string & str)
 inline
 std::string remove_extension(const std::string & str) {
     auto lastdot = str.find_last_of(".");
-    if (lastdot == std::string::npos) return str;
+    auto base = str.length() - basename(str).length();
+    if (lastdot == std::string::npos || lastdot < base) return str;
     return str.substr(0, lastdot); 
 }
 
@@ -130,7 +131,8 @@ inline
 std::pair<std::string, std::string>
 split_extension(const std::string & str) {
   auto lastdot = str.find_last_of(".");
-  if (lastdot == std::string::npos)
+  auto base = str.length() - basename(str).length();
+  if (lastdot == std::string::npos || lastdot < base)
     return std::make_pair( str, "");
   else
     return std::make_pair( str.substr(0, lastdot), str.substr(lastdot+1) ); 
-- 
2.43.0


From 09df8550a9e97be5e2e840cc1353eaf47852eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 44/77] fix: splitting a string is thread safe and takes any
 delimiter character

---
 ristra/utils/string_utils.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index a65d695..b333043 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -160,16 +160,16 @@ std::vector<std::string> split(
     using ccmask = cctype::mask;
     
     tokens_t(const std::vector<char> & delims) 
-      : cctype(get_table(delims)) {}
+      : cctype(get_table(delims), true) {} // ctype deletes the table
 
     static ctype_base::mask const * get_table(
       const std::vector<char> & delims
     ) {
-      static const ccmask * const_rc = cctype::classic_table();
-      static ccmask rc[cctype::table_size];
+      const ccmask * const_rc = cctype::classic_table();
+      ccmask * rc = new ccmask[cctype::table_size];
       std::memcpy(rc, const_rc, cctype::table_size*sizeof(ccmask));
       for (const auto & d : delims) 
-        rc[d] = ctype_base::space;
+        rc[static_cast<unsigned char>(d)] = ctype_base::space;
       return &rc[0];
     }
   };
-- 
2.43.0


From f1d689da62056551a8c555eaed366544a9eccac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 45/77] fix: a wide string is as long as the text it was
 converted from

---
 ristra/utils/string_utils.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index b333043..31a5e4e 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -16,6 +16,7 @@
 #include <iterator>
 #include <locale>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -65,7 +66,10 @@ static std::wstring to_wstring(const char* text)
     std::wstring wstr;
     if (size > 0) {
         wstr.resize(size);
-        std::mbstowcs(&wstr[0], text, size);
+        const size_t length = std::mbstowcs(&wstr[0], text, size);
+        if (length == static_cast<size_t>(-1))
+            throw std::invalid_argument("text is not valid in the current locale");
+        wstr.resize(length);
     }
     return wstr;
 }
-- 
2.43.0


From f593d2072306f17dbb43273bf5f86f6483032a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 46/77] fix: a trivial string holds its maximum length and
 refuses more

---
 ristra/utils/trivial_string.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/trivial_string.h b/ristra/utils/trivial_string.h
index 76353b4..4203754 100644
--- a/ristra/utils/trivial_string.h
+++ b/ristra/utils/trivial_string.h
@@ -13,7 +13,9 @@
 
 // system includes
 #include <array>
+#include <cassert>
 #include <cstring>
+#include <stdexcept>
 #include <string>
 
 namespace ristra {
@@ -66,7 +68,7 @@ private:
   static constexpr size_type size_ = N;
 
   //! a trivially copyable character array
-  std::array<value_type, size_> str_;
+  std::array<value_type, size_ + 1> str_; // with the terminator
 
 };
 
@@ -78,6 +80,8 @@ template< std::size_t N >
 auto to_trivial_string( const std::string & str )
 {
   trivial_string<N> tmp;
+  if ( str.length() > N )
+    throw std::length_error( "string is too long for a trivial_string" );
   strcpy( tmp.data(), str.c_str() );
   return tmp;
 }
-- 
2.43.0


From b436cb734a63058c9fe2ec5365179f988d1564a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 47/77] fix: constant strings can be used when they are
 constant

---
 ristra/utils/const_string.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/const_string.h b/ristra/utils/const_string.h
index 0c506ea..aa333f5 100644
--- a/ristra/utils/const_string.h
+++ b/ristra/utils/const_string.h
@@ -9,6 +9,10 @@
 
 #pragma once
 
+// system includes
+#include <cstddef>
+#include <stdexcept>
+
 namespace ristra {
 namespace utils {
 
@@ -29,11 +33,11 @@ public:
   constexpr const_string( const char (&a)[N] ) : p_(a), sz_(N-1) {}
 
   //! \brief return the value at a specific position `n`
-  constexpr char operator[] ( size_type n )
+  constexpr char operator[] ( size_type n ) const
   { return n < sz_ ? p_[n] : throw std::out_of_range(""); }
 
   //! \brief Return the size of the string.
-  constexpr size_type size() { return sz_; }
+  constexpr size_type size() const { return sz_; }
 
   //! \brief Return a pointer to a c-string.
   constexpr const char* c_str() const { return p_; }
-- 
2.43.0


From 21ee0f2dd9827415c7d14831b26f71ef1956862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 48/77] fix: time_utils.h can be included from more than one
 source file

---
 ristra/utils/time_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/time_utils.h b/ristra/utils/time_utils.h
index dd7a553..fced339 100644
--- a/ristra/utils/time_utils.h
+++ b/ristra/utils/time_utils.h
@@ -10,6 +10,7 @@
 #pragma once
 
 #include "ristra/ristra-config.h"
+#include "ristra/assertions/errors.h"
 
 //! system includes
 #ifdef RISTRA_ENABLE_MPI
@@ -28,7 +29,7 @@ namespace utils {
 //! \brief Return the wall time counter.
 //! \return the wall time
 ////////////////////////////////////////////////////////////////////////////////
-double get_wall_time(void)
+inline double get_wall_time(void)
 {
 
 #ifdef RISTRA_ENABLE_MPI
@@ -60,7 +61,7 @@ double get_wall_time(void)
 ////////////////////////////////////////////////////////////////////////////////
 //! \brief Convert seconds to days:hours:minutes:seconds.
 ////////////////////////////////////////////////////////////////////////////////
-void daysHoursMinutesSeconds( 
+inline void daysHoursMinutesSeconds( 
   const long long input_seconds, //!< [in] total number of seconds
   long long & days,              //!< [out] number of days
   int & hours,                   //!< [out] number of hours
-- 
2.43.0


From b33617e56fc65b1ca3c30a0a8bdd2819cfd3cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 49/77] fix: one container can be zipped, and the size of every
 container is checked

---
 ristra/utils/zip.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/zip.h b/ristra/utils/zip.h
index 0731ff3..6b9a62c 100644
--- a/ristra/utils/zip.h
+++ b/ristra/utils/zip.h
@@ -76,9 +76,9 @@ decltype(auto) zip(T&&... containers)
 
   // check all the sizes
   size_t sizes[] = { containers.size()... };
-  auto first_size = sizes[1];
+  auto first_size = sizes[0];
 #ifndef NDEBUG
-  for ( int i=2; i<n; i++ )
+  for ( int i=1; i<n; i++ )
     assert( first_size == sizes[i] && " size mismatch" ); 
 #endif
 
@@ -131,8 +131,8 @@ decltype(auto) zip(Types&&... args)
 
   // check all the sizes
   size_t sizes[] = { args.size()... };
-  auto first_size = sizes[1];
-  for ( int i=2; i<n; i++ )
+  auto first_size = sizes[0];
+  for ( int i=1; i<n; i++ )
     assert( first_size == sizes[i] && " size mismatch" ); 
 
   return zipper<special_decay_t<Types>...>(std::forward<Types>(args)...);
-- 
2.43.0


From 4a833a877effaa1cb58092ea71936e2c9ea22340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 50/77] fix: a tuple can be converted to an array

---
 ristra/utils/tuple_to_array.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/tuple_to_array.h b/ristra/utils/tuple_to_array.h
index 5699cac..f325f73 100644
--- a/ristra/utils/tuple_to_array.h
+++ b/ristra/utils/tuple_to_array.h
@@ -9,6 +9,11 @@
 
 #pragma once
 
+// system includes
+#include <array>
+#include <tuple>
+#include <utility>
+
 namespace ristra {
 namespace utils {
 
@@ -24,7 +29,7 @@ template<typename T, typename... U, std::size_t... I>
 inline Array<T, U...>
 to_array(const std::tuple<T, U...>& t, std::index_sequence<I...>)
 {
-  return Array<T, U...>{ get<I>(t)... };
+  return Array<T, U...>{ std::get<I>(t)... };
 }
 
 } // detail
@@ -35,7 +40,7 @@ to_array(const std::tuple<T, U...>& t, std::index_sequence<I...>)
 ////////////////////////////////////////////////////////////////////////////////
 template<typename T, typename... U>
 inline detail::Array<T, U...>
-to_array(const tuple<T, U...>& t)
+to_array(const std::tuple<T, U...>& t)
 {
   using IndexTuple = std::make_index_sequence<1+sizeof...(U)>;
   return detail::to_array(t, IndexTuple());
-- 
2.43.0


From 283442e502bc4cbc8476d6aec7ba6d50f2d34b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 51/77] fix: a filter iterator visits the elements its
 predicate accepts

---
 ristra/utils/filter_iterator.h | 37 +++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index 984e5ce..0cfb3c4 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -8,7 +8,12 @@
 ////////////////////////////////////////////////////////////////////////////////    
 #pragma once
 
-// user includes
+// system includes
+#include <cstddef>
+#include <iterator>
+#include <memory>
+#include <type_traits>
+#include <utility>
 
 namespace ristra {
 namespace utils {
@@ -33,7 +38,7 @@ public:
   using difference_type = typename std::iterator_traits<Iterator>::difference_type;
   using pointer = typename std::iterator_traits<Iterator>::pointer;
   using reference = typename std::iterator_traits<Iterator>::reference;
-  using iterator_category = typename std::iterator_traits<Iterator>::iterator_category;
+  using iterator_category = std::forward_iterator_tag;
 
   //! \brief the size type
   using size_type = std::size_t;
@@ -52,7 +57,7 @@ public:
   //!        no default constructor either
   constexpr filter_iterator( 
     Predicate pred, Iterator first, Iterator last = Iterator() ) noexcept
-    : pred_( pred ), iter_(first), end_(last) {}
+    : pred_( pred ), iter_(first), end_(last) { satisfy(); }
 
   template<
     class OtherIterator,
@@ -61,7 +66,7 @@ public:
   >
   filter_iterator( 
     filter_iterator<Predicate, OtherIterator> const& other ) noexcept
-    : pred_( other.predicate() ), iter_( *other ), end_( end() )
+    : pred_( other.predicate() ), iter_( other.begin() ), end_( other.end() )
   {}
 
   //! \brief default copy constructor
@@ -98,18 +103,16 @@ public:
   //============================================================================
   
   //! \brief return the current value
-  constexpr reference operator*() const noexcept { return iter_; }
+  constexpr reference operator*() const noexcept { return *iter_; }
 
   //! \brief return a pointer to the current value
-  constexpr pointer operator->() const noexcept { return &iter_; }
+  constexpr pointer operator->() const noexcept { return std::addressof(*iter_); }
 
   //! \brief prefix increment opeator
   constexpr filter_iterator& operator++() noexcept
   {
-    for (; iter_ != end_ ; ++iter_) {
-      if ( pred_(*iter_) )
-        return *this;
-    }
+    ++iter_;
+    satisfy();
     return *this;
   }
 
@@ -153,6 +156,12 @@ public:
 
 private:
 
+  //! \brief move to the next element that the predicate accepts, if need be
+  constexpr void satisfy() noexcept
+  {
+    while ( iter_ != end_ && !pred_(*iter_) ) ++iter_;
+  }
+
   //============================================================================
   /// \name private data
   //============================================================================
@@ -176,13 +185,9 @@ private:
 ////////////////////////////////////////////////////////////////////////////////    
 
 template <class Predicate, class Iterator>
-auto make_filter_iterator( Iterator && first, Iterator && last, Predicate && pred ) 
+auto make_filter_iterator( Iterator first, Iterator last, Predicate pred ) 
 {
-  return filter_iterator<Predicate, Iterator>( 
-    std::forward<Predicate>(pred), 
-    std::forward<Iterator>(first), 
-    std::forward<Iterator>(last)
-  );
+  return filter_iterator<Predicate, Iterator>( pred, first, last );
 }
 
 } // namespace
-- 
2.43.0


From 92e4aa1274b674a13b5ceba3bfe75140012d2c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 52/77] fix: an else after assert_true belongs to the if before
 it

---
 ristra/assertions/errors.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/assertions/errors.h b/ristra/assertions/errors.h
index e1ce61d..eac1eb9 100644
--- a/ristra/assertions/errors.h
+++ b/ristra/assertions/errors.h
@@ -79,8 +79,10 @@
 //! \param[in] msg  the message to display
 ////////////////////////////////////////////////////////////////////////////////
 #define assert_true(cond, msg)                                          \
-  if ( ! (cond) )                                                       \
-    THROW_RUNTIME_ERROR("Assertion falied: " << msg)
+  do {                                                                  \
+    if ( ! (cond) )                                                     \
+      THROW_RUNTIME_ERROR("Assertion falied: " << msg);                 \
+  } while(0)
 
 ////////////////////////////////////////////////////////////////////////////////
 //! \brief Display a warning.
-- 
2.43.0


From f45155f86f059463341f0d3343a6f557339e439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:20 +0000
Subject: [PATCH 53/77] fix: comparison assertions take the action of the file
 they are in

---
 ristra/assertions/dbc.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/assertions/dbc.h b/ristra/assertions/dbc.h
index 945bc65..c473bdd 100644
--- a/ristra/assertions/dbc.h
+++ b/ristra/assertions/dbc.h
@@ -85,7 +85,8 @@ action_t dbc_action(notify);
 #else
 action_t dbc_action(do_nothing);
 #endif // RISTRA_DBC_THROW
-} // anonymous::
+
+// The functions below use this file's action, so they belong to it as well.
 
 /**\brief assert that a == b. Give names for a and b. */
 template <class eq_t>
@@ -194,6 +195,8 @@ inline bool one_of_func(T const &key, container_t const &c, char const * name,
   return cond;
 } // OneOf
 
+} // anonymous::
+
 } // namespace dbc
 } // namespace exception
 } // namespace ristra
-- 
2.43.0


From 92aa5d78d6e19b6750710eb16083178af22abfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:26 +0000
Subject: [PATCH 54/77] fix: the volume of a strongly warped hexahedron is the
 signed sum of its parts

---
 ristra/geometry/shapes/hexahedron.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/geometry/shapes/hexahedron.h b/ristra/geometry/shapes/hexahedron.h
index 79d4e46..59da907 100644
--- a/ristra/geometry/shapes/hexahedron.h
+++ b/ristra/geometry/shapes/hexahedron.h
@@ -165,10 +165,10 @@ public:
     T d63_d50{ d63[0]+d50[0], d63[1]+d50[1], d63[2]+d50[2] };
     T d64_d20{ d64[0]+d20[0], d64[1]+d20[1], d64[2]+d20[2] };
     auto det = 
-      std::abs( triple_product( d61_d70, d63, d20 ) ) +
-      std::abs( triple_product( d70, d63_d50, d64 ) ) +
-      std::abs( triple_product( d61, d50, d64_d20 ) );
-    return det / 12;
+      triple_product( d61_d70, d63, d20 ) +
+      triple_product( d70, d63_d50, d64 ) +
+      triple_product( d61, d50, d64_d20 );
+    return std::abs( det ) / 12;
   }
      
 };
-- 
2.43.0


From 5f3d3306ebee1cac37d787d6bedad863127a8451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:00 +0000
Subject: [PATCH 55/77] fix: an input that is no longer in any source is not
 readable

---
 ristra/initialization/input_engine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 9e7f071..f846cea 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -452,6 +452,7 @@ class input_engine_t
         }
         missed_any = true;
         failures.insert(target);
+        the_registry.erase(target); // a value of an earlier resolution is out of date
       } // for(target : targets)
       bool found_all = !missed_any;
       if (found_all) {
@@ -512,6 +513,7 @@ class input_engine_t
         }
         missed_any = true;
         failures.insert(target);
+        hc_registry.erase(target); // a function of an earlier resolution is out of date
       } // for target in targets
       bool found_all = !missed_any;
       if (found_all) {
-- 
2.43.0


From 16bf6bb1d0cf12af8c5661a8d2b71c621e14a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:00 +0000
Subject: [PATCH 56/77] fix: an initial value that was resolved again is
 validated again

---
 ristra/initialization/init_value.h | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/ristra/initialization/init_value.h b/ristra/initialization/init_value.h
index 3bb1a2c..dbc88ec 100644
--- a/ristra/initialization/init_value.h
+++ b/ristra/initialization/init_value.h
@@ -62,15 +62,13 @@ class init_value_t
     // e.g. if(m_status == status_t::valid) return ie.get_value<T>(fname); etc.
     input_engine ie;
     string_t fname(full_name());
-    if (status_t::registered == m_status) {
-      // still just at registered: check if it was resolved
-      bool resolved = ie.template resolved<T>(fname);
-      m_status = resolved ? status_t::initialized : status_t::resolve_failed;
-      if (status_t::resolve_failed == m_status) {
-        Insist(false,
-          "Failed to resolve init_value " + m_name + " in namespace " +
-            m_namespace);
-      }
+    // check if it was resolved, also if it was so earlier
+    bool resolved = ie.template resolved<T>(fname);
+    m_status = resolved ? status_t::initialized : status_t::resolve_failed;
+    if (status_t::resolve_failed == m_status) {
+      Insist(false,
+        "Failed to resolve init_value " + m_name + " in namespace " +
+          m_namespace);
     }
     get_return_t t(ie.template get_value<T>(fname));
     bool valid(m_valid(t));
@@ -94,18 +92,16 @@ class init_value_t
     if (resolved) {
       m_status = status_t::initialized;
     }
+    else if (m_status > status_t::resolve_failed) {
+      m_status = status_t::resolve_failed; // it was resolved earlier
+    }
     return resolved;
   }
 
   /**\brief Was a valid */
   bool valid() 
   {
-    if (status_t::valid == m_status) {
-      return true;
-    }
-    if (status_t::invalid == m_status) {
-      return false;
-    }
+    // the inputs may have been resolved again: do not rely on an earlier answer
     bool reslvd = resolved();
     if (!reslvd) {
       return false;
-- 
2.43.0


From 9a8829fb8f6d48ae742a0ad8527c932133bd7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:43 +0000
Subject: [PATCH 57/77] fix: the exponential of a zero matrix does not convert
 an infinity to an integer

---
 ristra/math/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/math/matrix.h b/ristra/math/matrix.h
index f3306e8..12bad6e 100644
--- a/ristra/math/matrix.h
+++ b/ristra/math/matrix.h
@@ -582,7 +582,7 @@ auto exponential( const matrix<T, N, N> & mat )
         static_cast<size_t>
         (
             std::max( 0, 
-                      static_cast<int>(scaling_coefficient) + 1
+                      static_cast<int>(std::max<T>(scaling_coefficient, -1)) + 1
                     )
         );
     // scale matrix
-- 
2.43.0


From 0a26527346dbfa81df7390f06f0d1a1dc4b7cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:35 +0000
Subject: [PATCH 58/77] fix: catalyst scripts of an input file in the current
 directory are found there

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index 95f8b7f..6877e18 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -20,7 +20,8 @@ inline std::vector<std::string> getCatalystScripts(std::string inputFilename)
       //
       // Find the path 
       std::size_t foundBackslash = inputFilename.find_last_of("/");
-      std::string catalystPath = inputFilename.substr(0,foundBackslash);
+      std::string catalystPath = foundBackslash == std::string::npos ?
+        std::string(".") : inputFilename.substr(0,foundBackslash);
 
       //
       // Pass JSON file to json parser and
-- 
2.43.0


From 262acd5c4ae6095ca1f49d78a798457a5af1a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:35 +0000
Subject: [PATCH 59/77] fix: replacing a text that does not occur leaves the
 string unchanged

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index 6877e18..7fd1be8 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -49,7 +49,8 @@ inline std::vector<std::string> getCatalystScripts(std::string inputFilename)
 inline std::string replaceInString(std::string original, std::string stringToReplace, std::string replacement)
 {
   auto found = original.find(stringToReplace);
-  original.replace(found, stringToReplace.length(), replacement);
+  if (found != std::string::npos)
+    original.replace(found, stringToReplace.length(), replacement);
 
   return original;
 }
-- 
2.43.0


From 08fdfe6e2e088b0be075caee6a483f9f2812581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:35 +0000
Subject: [PATCH 60/77] fix: comparing images frees both of them

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index 7fd1be8..8b42db2 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -84,24 +84,31 @@ inline bool imageCompare(std::string imageA, std::string imageB)
   if (imgB == NULL)
   {
     std::cout << "Test failed: Could not load " << imageB << std::endl;
+    stbi_image_free(imgA);
     return false;
   }
 
   if (widthA != widthB)
   {
     std::cout << "Test failed: Image widths are different" << std::endl;
+    stbi_image_free(imgA);
+    stbi_image_free(imgB);
     return false;
   }
 
   if (heightA != heightB)
   {
     std::cout << "Test failed: Image heights are different" << std::endl;
+    stbi_image_free(imgA);
+    stbi_image_free(imgB);
     return false;
   }
 
   if (channelsA != channelsB)
   {
     std::cout << "Test failed: Number of channels are different" << std::endl;
+    stbi_image_free(imgA);
+    stbi_image_free(imgB);
     return false;
   }
     
@@ -114,6 +121,9 @@ inline bool imageCompare(std::string imageA, std::string imageB)
       numDiff++;
     }
 
+  stbi_image_free(imgA);
+  stbi_image_free(imgB);
+
   std::cout << "Images differ by " << ((float)numDiff/numPixels)*100 << " percent" << std::endl;
 
   if ((float)numDiff/numPixels > 0.02)
-- 
2.43.0


From 7f89a9845defaaa2b1e61173f66d519fe69f3795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:05 +0000
Subject: [PATCH 61/77] fix: field arrays handed to the grid are released

---
 ristra/io/catalyst/vtk/unstructuredGrid.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ristra/io/catalyst/vtk/unstructuredGrid.h b/ristra/io/catalyst/vtk/unstructuredGrid.h
index 121dbe5..3422f75 100644
--- a/ristra/io/catalyst/vtk/unstructuredGrid.h
+++ b/ristra/io/catalyst/vtk/unstructuredGrid.h
@@ -334,6 +334,8 @@ inline void UnstructuredGrid::addVectorData(std::string varName, int numPoints,
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -364,6 +366,8 @@ inline void UnstructuredGrid::addScalarData(std::string varName, T *data, size_t
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -383,6 +387,8 @@ inline void UnstructuredGrid::addVectorData(std::string varName, std::vector< st
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -402,6 +408,8 @@ inline void UnstructuredGrid::addTensorData(std::string varName, std::vector< st
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -518,6 +526,8 @@ inline void setScalarData(std::string varName, T *data, size_t numPoints, int ty
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -537,6 +547,8 @@ inline void setVectorData(std::string varName, std::vector< std::vector<T> > dat
   		uGrid->GetPointData()->AddArray(temp);	//SetVectors(temp)
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -556,6 +568,8 @@ inline void setTensorData(std::string varName, std::vector< std::vector<T> > dat
   		uGrid->GetPointData()->AddArray(temp);	//SetTensors(temp)
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
-- 
2.43.0


From 995d9b3732c5175a3176a645419d14bdbd11ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:05 +0000
Subject: [PATCH 62/77] fix: resetting the unstructured grid does not leave it
 with dead points and cells

---
 ristra/io/catalyst/vtk/unstructuredGrid.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristra/io/catalyst/vtk/unstructuredGrid.h b/ristra/io/catalyst/vtk/unstructuredGrid.h
index 3422f75..e558a6e 100644
--- a/ristra/io/catalyst/vtk/unstructuredGrid.h
+++ b/ristra/io/catalyst/vtk/unstructuredGrid.h
@@ -288,10 +288,14 @@ inline void UnstructuredGrid::pushPointsToGrid()
 
 inline void UnstructuredGrid::reset()
 {
-	pnts->Delete();
-	cells->Delete();
+	// the grid may still hold the old ones
+	pnts = vtkSmartPointer<vtkPoints>::New();
+	cells = vtkSmartPointer<vtkCellArray>::New();
+	pointIDs.clear();
 
 	idx = 0;
+	numOfPoints = 0;
+	numOfCells = 0;
 }
 
 
-- 
2.43.0


From 97c212f7a9d62329656d1a164cad991541cf327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:05 +0000
Subject: [PATCH 63/77] fix: finalizeAdaptor returns the null processor

---
 ristra/io/catalyst/adaptor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/io/catalyst/adaptor.h b/ristra/io/catalyst/adaptor.h
index 71d6f37..f1750fd 100644
--- a/ristra/io/catalyst/adaptor.h
+++ b/ristra/io/catalyst/adaptor.h
@@ -127,6 +127,8 @@ inline vtkCPProcessor* finalizeAdaptor(vtkCPProcessor* processor)
 
   clock.stop("finalizeAdaptor");
   std::cout << "Finalize Catalyst Adaptor:" << clock.getDuration("finalizeAdaptor") << " s" << std::endl;
+
+  return processor;
 }
 
 
-- 
2.43.0


From 5aa81de52e56ab8e47894298d950930ce52ee070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:05 +0000
Subject: [PATCH 64/77] fix: the debug output of a grid releases its writer

---
 ristra/io/catalyst/flecsale_unstructuredGrid.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ristra/io/catalyst/flecsale_unstructuredGrid.h b/ristra/io/catalyst/flecsale_unstructuredGrid.h
index a00021b..2d50418 100644
--- a/ristra/io/catalyst/flecsale_unstructuredGrid.h
+++ b/ristra/io/catalyst/flecsale_unstructuredGrid.h
@@ -186,6 +186,7 @@ inline void outputVTKUnstructredGrid(std::string filename, vtkSmartPointer<vtkUn
 	writer->SetFileTypeToBinary();
 	writer->SetFileName(filename.c_str());
 	writer->Write();
+	writer->Delete();
 }
 
 
-- 
2.43.0


From 83f762f8d59e35c6c2795fccb8a04a060c81ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:05 +0000
Subject: [PATCH 65/77] fix: the coordinates of a two-dimensional mesh stay
 inside their buffer

---
 ristra/io/catalyst/flecsale_unstructuredGrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/flecsale_unstructuredGrid.h b/ristra/io/catalyst/flecsale_unstructuredGrid.h
index 2d50418..3f20d70 100644
--- a/ristra/io/catalyst/flecsale_unstructuredGrid.h
+++ b/ristra/io/catalyst/flecsale_unstructuredGrid.h
@@ -288,7 +288,7 @@ inline vtkSmartPointer<vtkUnstructuredGrid> createMesh(mesh_t &m)
     	int count = 0;
       	for ( int i=0; i<num_dims; i++ )
       	{
-      		vertex_coord[ v.id()*3 + i] = coords[i];
+      		vertex_coord[ v.id()*num_dims + i] = coords[i];
       		vertex.push_back(coords[i]);
       		count++;
       	}
-- 
2.43.0


From cd4514311420241d2e8038b81057875201340f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:32 +0000
Subject: [PATCH 66/77] fix: initVTKUnstructuredGrid gives its caller the grid
 it makes

---
 ristra/io/catalyst/flecsale_unstructuredGrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/flecsale_unstructuredGrid.h b/ristra/io/catalyst/flecsale_unstructuredGrid.h
index 3f20d70..9a0ab76 100644
--- a/ristra/io/catalyst/flecsale_unstructuredGrid.h
+++ b/ristra/io/catalyst/flecsale_unstructuredGrid.h
@@ -89,7 +89,7 @@ auto validate_string = []( auto && str )
 };
 
 
-inline void initVTKUnstructuredGrid(vtkSmartPointer<vtkUnstructuredGrid> grid)
+inline void initVTKUnstructuredGrid(vtkSmartPointer<vtkUnstructuredGrid> & grid)
 {
 	grid = vtkSmartPointer<vtkUnstructuredGrid>::New();
 }
-- 
2.43.0


From dc42822c60679d6c6369777f615b2a171155af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:17 +0000
Subject: [PATCH 67/77] fix: fixed_vector takes its elements from single-pass
 iterators too

---
 ristra/utils/fixed_vector.h | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index f5870cf..3859b67 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -97,9 +97,12 @@ public:
   template< class InputIt >
   void assign( InputIt first, InputIt last )
   {
-    length_ = std::distance( first, last );
-    assert( size() <= capacity() );
-    std::copy( first, last, begin() );    
+    // one pass: input iterators can not be traversed twice
+    clear();
+    for ( ; first != last; ++first ) {
+      assert( size() < capacity() );
+      data_[length_++] = *first;
+    }
   }
 
   void assign( std::initializer_list<T> ilist )
@@ -235,20 +238,14 @@ public:
   >
   iterator insert( const_iterator pos, InputIt first, InputIt last )
   {
-    // figure out the added size
-    auto count = std::distance( first, last );
-    assert( size()+count <= capacity() );
-    // convert to a non-const iterator
+    // one pass: append the new elements, then move them into place
     auto d_first = _validate_iterator( pos );
-    // if zero size is inserted, return pos
-    if ( count == 0 ) return d_first;
-    // otherwise, shift data to the right
-    std::move_backward(d_first, end(), std::next(end(), count) );
-    // assign values
-    std::copy( first, last, d_first );
-    // increment counter
-    length_ += count;
-    // return an iterator to the inserted value
+    auto d_last = end();
+    for ( ; first != last; ++first ) {
+      assert( size() < capacity() );
+      data_[length_++] = *first;
+    }
+    std::rotate( d_first, d_last, end() );
     return d_first;
   }
 
-- 
2.43.0


From c465df81c58f7c04526a26bb51da3fcc13e7afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:17 +0000
Subject: [PATCH 68/77] fix: growing a fixed_vector gives new elements, not old
 or uninitialised ones

---
 ristra/utils/fixed_vector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 3859b67..7d96cb6 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -67,9 +67,9 @@ public:
   }
 
   explicit fixed_vector( size_type count ) :
-    length_( count )
+    length_( 0 )
   {
-    assert( size() <= capacity() );
+    resize( count );
   }
 
   template< 
@@ -334,8 +334,11 @@ public:
 
   void resize( size_type count ) 
   {
+    assert( count <= capacity() );
+    // new elements are value initialized
+    for ( size_type i=length_; i<count; i++ )
+      data_[i] = value_type();
     length_ = count;
-    assert( size() <= capacity() );
   }
   void resize( size_type count, const value_type& value )
   {
-- 
2.43.0


From 9eca4d74b2122868838c33f22e65038e20d21b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:17 +0000
Subject: [PATCH 69/77] fix: fixed_vector of integers can be assigned a count
 and a value

---
 ristra/utils/fixed_vector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 7d96cb6..c462c1c 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -94,7 +94,10 @@ public:
     std::fill_n( begin(), count, value );
   }
 
-  template< class InputIt >
+  template< 
+    class InputIt,
+    typename = typename std::enable_if_t< is_iterator_v<InputIt> >
+  >
   void assign( InputIt first, InputIt last )
   {
     // one pass: input iterators can not be traversed twice
-- 
2.43.0


From 14f46b9d12fe098c09f9cce03ce748317b197905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:19 +0000
Subject: [PATCH 70/77] fix: a Lua state that could not be made is not closed

lua_t throws when luaL_newstate gives no state, but unwinding then called
lua_close on the null pointer and ended the program.
---
 ristra/embedded/embed_lua.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 2ce0ad4..b048d4f 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -425,7 +425,7 @@ public:
 
   /// \brief Default constructor.
   lua_base_t()
-    : state_( luaL_newstate(), [](lua_State * s) { lua_close(s); } )
+    : state_( luaL_newstate(), [](lua_State * s) { if (s) lua_close(s); } )
   {}
   
   /// \brief Copy constructor.
-- 
2.43.0


From afede79d2e7aae256558f35c4b9279151903e099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:34 +0000
Subject: [PATCH 71/77] fix: python_run_string reports a script that fails

PyRun_SimpleString prints the error and returns -1, which was ignored, so a
failing script looked like a successful one to the caller.
---
 ristra/embedded/embed_python.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index f7bb4b1..00a5cae 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -102,7 +102,9 @@ inline void python_finalize( void )
 
 inline void python_run_string( std::string exec )
 {
-  PyRun_SimpleString( exec.c_str() );
+  // errors have been printed already
+  if (PyRun_SimpleString( exec.c_str() ))
+    THROW_RUNTIME_ERROR("Cannot run string.");
 } 
 
 inline auto python_import( std::string name ) 
-- 
2.43.0


From bfd27886b798888e0a419673198f45fa70d9684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:34 +0000
Subject: [PATCH 72/77] fix: arguments that cannot all be built are released

When an argument could not be converted, the tuple built so far leaked.
---
 ristra/embedded/embed_python.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 00a5cae..fd92bb8 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -280,7 +280,13 @@ auto python_build_args( Args&&... args )
     python_check();
     THROW_RUNTIME_ERROR("Cannot initialize arguments.");
   }
-  detail::python_build_args(pargs, 0, std::forward<Args>(args)...);
+  try {
+    detail::python_build_args(pargs, 0, std::forward<Args>(args)...);
+  }
+  catch (...) {
+    Py_DECREF(pargs);
+    throw;
+  }
   return pargs;
 }
 
-- 
2.43.0


From 3e4c336bd8c6f7a558ce50402e0232b11df1e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:54 +0000
Subject: [PATCH 73/77] fix: accessing tuple elements of something that is no
 tuple is reported

PyTuple_GET_SIZE does not check its argument: it ended a debug build and read
an unrelated field of the object otherwise.
---
 ristra/embedded/embed_python.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index fd92bb8..478dfe0 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -222,7 +222,11 @@ inline auto python_get_value( double arg )
 
 inline auto python_get_tuple_element( PyObject * py_tup, std::size_t i )
 {
-  auto n = PyTuple_GET_SIZE(py_tup);
+  auto n = PyTuple_Size(py_tup);
+  if (n<0) {
+    python_check();
+    THROW_RUNTIME_ERROR("Object is not a tuple.");
+  }
   if (i>=n) {
     python_check();
     THROW_RUNTIME_ERROR("Index out of range (i="<<i<<">="<<n<<").");
@@ -239,7 +243,11 @@ inline auto python_get_tuple_element( PyObject * py_tup, std::size_t i )
 template< typename Arg >
 void python_set_tuple_element( PyObject * py_tup, std::size_t i, Arg && arg )
 {
-  auto n = PyTuple_GET_SIZE(py_tup);
+  auto n = PyTuple_Size(py_tup);
+  if (n<0) {
+    python_check();
+    THROW_RUNTIME_ERROR("Object is not a tuple.");
+  }
   if (i>=n) {
     python_check();
     THROW_RUNTIME_ERROR("Index out of range (i="<<i<<">="<<n<<").");
-- 
2.43.0


From 6f45fab6347ee27475d592ceb314a62887dc8f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:23 +0000
Subject: [PATCH 74/77] fix: a size_t that lua cannot hold is refused, not
 passed as a negative number

---
 ristra/embedded/embed_lua.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index b048d4f..b541578 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -325,6 +325,8 @@ inline std::size_t lua_push(lua_State * s, int i)
 /// \param [in] i  The size_t to push.
 inline std::size_t lua_push(lua_State * s, size_t i)
 {
+  if ( i > static_cast<lua_Unsigned>(LUA_MAXINTEGER) )
+    THROW_RUNTIME_ERROR( i << " is too large for a lua integer." );
   lua_pushinteger( s, i );
   return 1;
 }
-- 
2.43.0


From fe0cd99f1707b8affcd9bfcd324651114fdea7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:59 +0000
Subject: [PATCH 75/77] fix: bounds without indices begin at their end

---
 ristra/utils/array_view.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 5ba1748..db99031 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -736,9 +736,9 @@ public:
   }
 
   //! \brief return the begining iterator {0} 
-  //! \return an iterator to the first index
+  //! \return an iterator to the first index, or the end if there is none
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() == 0 ? bounds_ : index_type{} ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -993,9 +993,9 @@ public:
   }
 
   //! \brief return the begining iterator {0} 
-  //! \return an iterator to the first index
+  //! \return an iterator to the first index, or the end if there is none
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() == 0 ? bounds_ : index_type{} ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -1219,9 +1219,9 @@ public:
   }
 
   //! \brief return the begining iterator {0} 
-  //! \return an iterator to the first index
+  //! \return an iterator to the first index, or the end if there is none
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() == 0 ? bounds_ : index_type{} ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
-- 
2.43.0


From 9dbaa84c38519b4c4e6a5fe3a012ef08b22115fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:50 +0000
Subject: [PATCH 76/77] fix: get_instant_value throws when its key is in no
 source

As documented. It relied on Insist to throw, which does nothing unless the
contracts are configured to throw, and then gave the value of an earlier
resolution.
---
 ristra/initialization/input_engine.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index f846cea..25cf0f4 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -22,6 +22,7 @@
 #include <numeric> // accumulate
 #include <set>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <typeinfo>
 #include "unistd.h"
@@ -313,7 +314,7 @@ class input_engine_t
     if(!resolved){
       string_t err = "get_instant_value: Could not resolve key '" +
         target_name + "' using type '" + typeid(T).name() + "'";
-      Insist(false,err);
+      throw std::runtime_error(err); // whatever a failed contract does
     }
     return get_value<T>(target_name);
   } // get_instant_value
-- 
2.43.0


From 431b26876256de41f87fce79d258e700bf27594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:50 +0000
Subject: [PATCH 77/77] fix: asking an input engine for a source it does not
 have throws

As documented, also when failed contracts do not throw; it was a reference
to nothing.
---
 ristra/initialization/input_engine.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 25cf0f4..6eaf86b 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -218,7 +218,9 @@ class input_engine_t
    *
    * Throws exception if no Lua source registered.*/
   lua_source_t &get_lua_source() const {
-    Require( has_lua_source(),"Cannot get reference to non-existent source!");
+    if (!has_lua_source()) {
+      throw std::runtime_error("Cannot get reference to non-existent source!");
+    }
     return *m_lua_source;
   }
 
@@ -226,8 +228,9 @@ class input_engine_t
    *
    * Throws exception if no hard-coded source registered.*/
   hard_coded_source_t &get_hard_coded_source() const {
-    Require(
-      has_hard_coded_source(), "Cannot get reference to non-existent source!");
+    if (!has_hard_coded_source()) {
+      throw std::runtime_error("Cannot get reference to non-existent source!");
+    }
     return *m_hard_coded_source;
   }
 
-- 
2.43.0

