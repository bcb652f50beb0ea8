From 0ef03f8bf4b9618b806f5c50f0378ff941fb0d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 01/24] fix: Matrix::negate negated the identity instead of the
 matrix

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 99c3069..6accd7f 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1217,7 +1217,7 @@ template< size_t M, size_t N, typename T >
 Matrix< M, N, T >
 Matrix< M, N, T >::negate() const
 {
-    Matrix< M, N, T > result;
+    Matrix< M, N, T > result( *this );
     result *= -1.0;
     return result;
 }
-- 
2.43.0


From 0703d2628e2bc561fdcf070bc6cd2e98c7ed3ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 02/24] fix: Matrix::get_max never returned a value below zero

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 6accd7f..cfc416a 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2353,7 +2353,7 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_max() const
 {
-    T max_value = static_cast<T>(0);
+    T max_value = std::numeric_limits<T>::lowest();
 
     const_iterator  it = begin(),
     it_end = end();
-- 
2.43.0


From 00c290074f6369c24358f3c69056b9cef2daa8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 03/24] fix: Vector and Matrix reverse iterators did not
 compile and were off by one

---
 vmmlib/matrix.hpp | 8 ++++----
 vmmlib/vector.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index cfc416a..e378e2a 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2182,7 +2182,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rbegin()
 {
-    return array + size() - 1;
+    return reverse_iterator( end( ));
 }
 
 
@@ -2192,7 +2192,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rend()
 {
-    return array - 1;
+    return reverse_iterator( begin( ));
 }
 
 
@@ -2202,7 +2202,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rbegin() const
 {
-    return array + size() - 1;
+    return const_reverse_iterator( end( ));
 }
 
 
@@ -2212,7 +2212,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin( ));
 }
 
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 4adc2de..f33d7d9 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1574,7 +1574,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rbegin()
 {
-    return array + M - 1;
+    return reverse_iterator( end( ));
 }
 
 
@@ -1582,7 +1582,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rend()
 {
-    return array - 1;
+    return reverse_iterator( begin( ));
 }
 
 
@@ -1590,7 +1590,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rbegin() const
 {
-    return array + M - 1;
+    return const_reverse_iterator( end( ));
 }
 
 
@@ -1598,7 +1598,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin( ));
 }
 
 
-- 
2.43.0


From 4428cb6b15f29bfe6574a08ea9141d22365967fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 04/24] fix: Vector::find_abs_max_index returned the index of
 the smallest absolute value

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index f33d7d9..9cb6a4e 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1497,7 +1497,7 @@ template< size_t M, typename T >
 size_t
 Vector< M, T >::find_abs_max_index() const
 {
-    return std::max_element( begin(), end(), vmml::math::abs_greater< T >() ) - begin();
+    return std::max_element( begin(), end(), vmml::math::abs_less< T >() ) - begin();
 }
 
 
-- 
2.43.0


From 001154a804f9daf571357af30736c1f167a7cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 05/24] fix: Matrix::operator[] accepted row index M

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index e378e2a..0f2d3c1 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -439,7 +439,7 @@ public:
     inline row_accessor operator[]( size_t row_index )
     {
         #ifdef VMMLIB_SAFE_ACCESSORS
-        if ( row_index > M )
+        if ( row_index >= M )
             VMMLIB_ERROR( "row index out of bounds", VMMLIB_HERE );
         #endif
         return row_accessor( array + row_index );
-- 
2.43.0


From 3dd3aca06921fe053e33704ebb8ebd03927fd8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 06/24] fix: Matrix::convolve swapped rows and columns for
 non-square operands

---
 vmmlib/matrix.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 0f2d3c1..6e7ddce 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -529,27 +529,27 @@ void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
 {
     Matrix< M, N, T> temp;  // do not override original values instantly as old values are needed for calculation
 
-    for(size_t y_ = 0; y_ < N; ++y_)
+    for(size_t y_ = 0; y_ < M; ++y_)
     {
-        for(size_t x_ = 0; x_ < M; ++x_)
+        for(size_t x_ = 0; x_ < N; ++x_)
         {
             double sum = 0.0;
 
-            for(size_t j = 0; j < V; ++j)
+            for(size_t j = 0; j < U; ++j)
             {
-                int srcy = y_ - V/2 + j;
+                int srcy = y_ - U/2 + j;
 
                 // Extending border values
                 if(srcy < 0)       srcy = 0;
-                if(srcy >= int(N)) srcy = N-1;
+                if(srcy >= int(M)) srcy = M-1;
 
-                for(size_t i = 0; i < U; ++i)
+                for(size_t i = 0; i < V; ++i)
                 {
-                    int srcx = x_ - U/2 + i;
+                    int srcx = x_ - V/2 + i;
 
                     // Extending border values
                     if(srcx < 0)       srcx = 0;
-                    if(srcx >= int(M)) srcx = M-1;
+                    if(srcx >= int(N)) srcx = N-1;
 
                     sum += kernel.at(j,i) * at(srcy,srcx);
                 }
-- 
2.43.0


From 76e9a0b89954d540707fc9ad29ec66a061bb77e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 07/24] fix: Quaternion from rotation matrix: sign of w in the
 small-trace branches

---
 vmmlib/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 9f04892..5b7ee1c 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -308,7 +308,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
             z() = M( 0,2 ) + M( 2,0 );
             z() *= s;
 
-            w() = M( 1,2 ) - M( 2,1 );
+            w() = M( 2,1 ) - M( 1,2 );
             w() *= s;
         }
         else if ( largest == 1 )
@@ -337,7 +337,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
 
             z() = 0.25 / s;
 
-            w() = M( 0,1 ) - M( 1,0 );
+            w() = M( 1,0 ) - M( 0,1 );
             w() *= s;
         }
         else
-- 
2.43.0


From c237b0270eda42bf746535aff2b52f29bc963a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 08/24] fix: Quaternion +=, - and * with a Vector mixed up the
 components

---
 vmmlib/quaternion.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 5b7ee1c..23e2846 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -719,7 +719,7 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator-( const Vector< 3, T >& a ) const
 {
-    return Quaternion( w(), x() - a.x(), y() - a.y(), z() - a.z() );
+    return Quaternion( x() - a.x(), y() - a.y(), z() - a.z(), w() );
 }
 
 
@@ -728,10 +728,10 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator*( const Vector< 3, T >& a ) const
 {
-    return Quaternion( -x() * a.x() - y() * a.y() - z() * a.z(),
-                        w() * a.x() + y() * a.z() - z() * a.y(),
-                        w() * a.y() + z() * a.x() - x() * a.z(),
-                        w() * a.z() + x() * a.y() - y() * a.x()  );
+    return Quaternion( w() * a.x() + y() * a.z() - z() * a.y(),
+                       w() * a.y() + z() * a.x() - x() * a.z(),
+                       w() * a.z() + x() * a.y() - y() * a.x(),
+                       -x() * a.x() - y() * a.y() - z() * a.z( ));
 }
 
 
@@ -741,7 +741,7 @@ void Quaternion< T >::operator+=( const Vector< 3, T >& xyz )
 {
     x() += xyz.x();
     y() += xyz.y();
-    y() += xyz.z();
+    z() += xyz.z();
 }
 
 
-- 
2.43.0


From ceab412ae1c35d883c874cb8cc181f4a41239614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 09/24] fix: Matrix::operator*= was wrong when the matrix is
 its own operand

---
 vmmlib/matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 6e7ddce..08e761c 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1082,8 +1082,9 @@ template< size_t O, size_t P, typename TT >
 typename enable_if< M == N && O == P && M == O, TT >::type*
 Matrix< M, N, T >::operator*=( const Matrix< O, P, TT >& right )
 {
-    Matrix< M, N, T > copy( *this );
-    multiply( copy, right );
+    Matrix< M, N, T > result;
+    result.multiply( *this, right );
+    *this = result;
     return 0;
 }
 
-- 
2.43.0


From 13990656e880c1de1044dd2885988c4b67f7dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 10/24] fix: Matrix::set ignored the end iterator in
 column-major layout

---
 vmmlib/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 08e761c..4864f81 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1505,7 +1505,8 @@ void Matrix< M, N, T >::set( input_iterator_t begin_,
     }
     else
     {
-        std::copy( it, it + ( M * N ), begin() );
+        for( iterator dst = begin(); dst != end() && it != end_; ++dst, ++it )
+            *dst = static_cast< T >( *it );
     }
 }
 
-- 
2.43.0


From 3d27286caecf85498aff4d2c4fa237cb9a7da56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 11/24] fix: AABB::isEmpty compared z with x

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index bfab1f5..a1f4787 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -371,7 +371,7 @@ void AABB< T >::setEmpty()
 template< typename T > inline bool AABB< T >::isEmpty() const
 {
     return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||
-             _min.z() >=  _max.x( ));
+             _min.z() >=  _max.z( ));
 }
 
 template< typename T >
-- 
2.43.0


From 296cf6f2e30e4da5ea5034149dc0db9fb68d3ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 12/24] fix: 2x2 inverse accepted a determinant equal to the
 tolerance

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 4864f81..b81c0b2 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -667,7 +667,7 @@ bool compute_inverse( const Matrix< 2, 2, T >& m_, Matrix< 2, 2, T >& inverse_,
                       T tolerance_ = std::numeric_limits<T>::epsilon())
 {
     const T det_ = compute_determinant( m_ );
-    if( fabs( det_ ) < tolerance_ )
+    if( fabs( det_ ) <= tolerance_ )
         return false;
 
     const T detinv = static_cast< T >( 1.0 ) / det_;
-- 
2.43.0


From 10d9cbace5c4b94b8c5394a9c77549ed27a7ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 13/24] fix: is_positive_definite default limit accepted
 negative minors

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index b81c0b2..2f7acd0 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -794,7 +794,7 @@ transpose( const Matrix< M, N, T >& Matrix_ )
 
 template< size_t M, size_t N, typename T >
 bool is_positive_definite( const Matrix< M, N, T >& matrix_,
-    const T limit = -1e12,
+    const T limit = -1e-12,
     typename enable_if< M == N && M <= 3 >::type* = 0 )
 {
     if ( matrix_.at( 0, 0 ) < limit )
-- 
2.43.0


From 1f6f1dbfe6729712848e654be280d1fec2bae0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 14/24] fix: Frustum::set_perspective ignored the near plane

---
 vmmlib/frustum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 76088dc..7d0b82c 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -251,7 +251,7 @@ Frustum<T>::set_perspective( T fov_y, T aspect_ratio, T near_plane_,
     near_plane() = near_plane_;
     far_plane()   = far_plane_;
 
-    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * 0.5;
+    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * near_plane_;
     bottom()    = - top();
 
     left()      = bottom() * aspect_ratio;
-- 
2.43.0


From 37f5e048525e4d0daa53145898d516cf3a674958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 15/24] fix: Vector::operator== compared bytes, so 0 and -0
 differed

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 9cb6a4e..2f31ac2 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1308,7 +1308,7 @@ Vector< M, T >::project_point_onto_plane( const Vector< 3, TT >& point,
 template< size_t M, typename T >
 bool Vector< M, T >::operator==( const Vector< M, T >& other ) const
 {
-    return memcmp( array, other.array, sizeof( array )) == 0;
+    return std::equal( begin(), end(), other.begin( ));
 }
 
 
-- 
2.43.0


From 9b5b3f3d3f4dd65a6b9a8e3d6f58afe6a2e23f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 16/24] fix: Vector::equals with a tolerance accepted NaN
 components

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 2f31ac2..0de3bc6 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1324,7 +1324,7 @@ bool
 Vector< M, T >::equals( const Vector< M, T >& other, T tolerance ) const
 {
     for( size_t index = 0; index < M; ++index )
-        if( fabs( at( index ) - other( index ) ) >= tolerance )
+        if( !( fabs( at( index ) - other( index ) ) < tolerance ))
             return false;
     return true;
 
-- 
2.43.0


From 1ac82bdc631cd86a1f2f8d1f86d45dc114afdfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 17/24] fix: Vector::scale_to was wrong for a range that is not
 symmetric

---
 vmmlib/vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 0de3bc6..dcf3b4b 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1444,13 +1444,12 @@ Vector< M, T >::scale_to( Vector< M, TT >& result_,
     T min_value, T max_value ) const
 {
     T range       = max_value-min_value;
-    T half_range  = range * 0.5;
     T scale       = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );
 
     for( size_t index = 0; index < M; ++index )
     {
         result_.at( index )
-            = static_cast< TT >( ( at( index ) + half_range ) * scale );
+            = static_cast< TT >( ( at( index ) - min_value ) * scale );
     }
 
 }
-- 
2.43.0


From 538f884158e5c55043ce9a48a61c767e294ed326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 18/24] fix: Matrix::p_norm raised negative elements to a
 fractional power

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 2f7acd0..d8ea13d 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2270,7 +2270,7 @@ Matrix< M, N, T >::p_norm( double p ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm += std::pow(*it, p);
+        norm += std::pow(std::fabs(*it), p);
     }
 
     return std::pow(norm,1./p);
-- 
2.43.0


From c4700e2bfd698bea3dd36c9700851beb98c51935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 19/24] fix: compute_plane did not return a unit normal

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index dcf3b4b..887cb32 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -484,7 +484,7 @@ inline Vector< 4, T > compute_plane( const Vector< 3, T >& a,
     const Vector< 3, T > cb = b - c;
     const Vector< 3, T > ba = a - b;
 
-    Vector< 4, T > plane = cb.cross( ba );
+    Vector< 4, T > plane( cb.cross( ba ), 0 );
     plane.normalize();
     plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();
     return plane;
-- 
2.43.0


From 9edec11953fd8ab039bdb7757a033b20d57bbead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 20/24] fix: operator<< restores the format flags of the stream

setf( flags ) only adds flags: a stream set to left adjustment ended up with
left and right set after printing a matrix, vector or frustum.
---
 vmmlib/frustum.hpp | 2 +-
 vmmlib/matrix.hpp  | 2 +-
 vmmlib/vector.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 7d0b82c..75a5644 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -116,7 +116,7 @@ public:
            << std::setw(10) << f.near_plane()   << " "
            << std::setw(10) << f.far_plane()    << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index d8ea13d..d2b6ac9 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -470,7 +470,7 @@ public:
             os << "|" << std::endl;
         }
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 887cb32..547e1cf 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -348,7 +348,7 @@ public:
             os << std::setw(10) << vector_.at( index ) << " ";
         os << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     }
 
-- 
2.43.0


From 3350208319f418d2fb3bbf7320baa62a8099ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 21/24] fix: read_from_raw does not leak its buffer when the
 file cannot be opened

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index d2b6ac9..39a146a 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2650,12 +2650,12 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
 
     size_t max_file_len = 2147483648u - sizeof(T) ;
     size_t len_data = sizeof(T) * size();
-    char* data = new char[ len_data ];
     std::ifstream infile;
     infile.open( path.c_str(), std::ios::in);
 
     if( infile.is_open())
     {
+        char* data = new char[ len_data ];
         iterator  it = begin(),
         it_end = end();
 
-- 
2.43.0


From b2aa97e5aebf954cd1a8f9df84e2a2664f6d3c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 22/24] fix: Vector::cross( a, b ) was wrong when the vector is
 its own operand

---
 vmmlib/vector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 547e1cf..6173869 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1109,9 +1109,14 @@ void Vector< M, T >::cross( const Vector< M, TT >& aa,
                             const Vector< M, TT >& bb,
                             typename enable_if< M == 3, TT >::type* )
 {
-    array[ 0 ] = aa.y() * bb.z() - aa.z() * bb.y();
-    array[ 1 ] = aa.z() * bb.x() - aa.x() * bb.z();
-    array[ 2 ] = aa.x() * bb.y() - aa.y() * bb.x();
+    // aa or bb may be this vector
+    const T x_ = aa.y() * bb.z() - aa.z() * bb.y();
+    const T y_ = aa.z() * bb.x() - aa.x() * bb.z();
+    const T z_ = aa.x() * bb.y() - aa.y() * bb.x();
+
+    array[ 0 ] = x_;
+    array[ 1 ] = y_;
+    array[ 2 ] = z_;
 }
 
 
-- 
2.43.0


From 8da0c5d63c3c0192d2f5512aca0cf1ca4c605503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 23/24] fix: Matrix::threshold was wrong when the threshold is
 an element of the matrix

---
 vmmlib/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 39a146a..fa3c609 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2445,11 +2445,12 @@ template< size_t M, size_t N, typename T >
 void
 Matrix< M, N, T >::threshold( const T& threshold_value_ )
 {
+    const T limit = threshold_value_; // may be an element of this matrix
     iterator  it = begin(),
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) <= threshold_value_ ) {
+        if ( fabs(*it) <= limit ) {
             *it = static_cast<T> (0);
         }
     }
-- 
2.43.0


From 86acef0d88c74bd61091e48f257593ee1608764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 24/24] fix: matrix_traits addresses the element at (row, col)

The Boost.LA traits passed the column as row index, so elements were
transposed and accesses of non-square matrices left the matrix.
---
 vmmlib/matrix_traits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/matrix_traits.hpp b/vmmlib/matrix_traits.hpp
index ab453e9..cf9015a 100644
--- a/vmmlib/matrix_traits.hpp
+++ b/vmmlib/matrix_traits.hpp
@@ -59,7 +59,7 @@ struct matrix_traits<vmml::matrix<M, N, T> >
 		BOOST_STATIC_ASSERT(Row < rows);
 		BOOST_STATIC_ASSERT(Col >= 0);
 		BOOST_STATIC_ASSERT(Col < cols);
-		return m.at(Col, Row);
+		return m.at(Row, Col);
 	}
 
 	template<int Row, int Col>
@@ -69,7 +69,7 @@ struct matrix_traits<vmml::matrix<M, N, T> >
 		BOOST_STATIC_ASSERT(Row < rows);
 		BOOST_STATIC_ASSERT(Col >= 0);
 		BOOST_STATIC_ASSERT(Col < cols);
-		return m.at(Col, Row);
+		return m.at(Row, Col);
 	}
 
 	static scalar_type ir(int row, int col, const matrix_type& m)
@@ -78,7 +78,7 @@ struct matrix_traits<vmml::matrix<M, N, T> >
 		BOOST_ASSERT(row < rows);
 		BOOST_ASSERT(col >= 0);
 		BOOST_ASSERT(col < cols);
-		return m.at(col, row);
+		return m.at(row, col);
 	}
 
 	static scalar_type& iw(int row, int col, matrix_type& m)
@@ -87,7 +87,7 @@ struct matrix_traits<vmml::matrix<M, N, T> >
 		BOOST_ASSERT(row < rows);
 		BOOST_ASSERT(col >= 0);
 		BOOST_ASSERT(col < cols);
-		return m.at(col, row);
+		return m.at(row, col);
 	}
 };
 
-- 
2.43.0

