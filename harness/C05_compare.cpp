// comparison: ==, !=, <, tolerance equality and the row / column sign-insensitive comparators
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/util.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/aabb.hpp>
using namespace vmml;

template< class T > static T ab( T x ) { return x < T( 0 ) ? T( -x ) : x; }

template< size_t M, size_t N, class T > static void mat_cmp()
{
    Matrix< M, N, T > m, o;
    T a[M][N], b[M][N];
    vu::matany( m, a, "m" );
    vu::matany( o, b, "o" );
    bool all = true;
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
            all = all & ( a[i][j] == b[i][j] );
    vp::check(( m == o ) == all, "== exactly when all elements are equal" );
    vp::check(( m != o ) == !all, "!= is the negation of ==" );
}
template< size_t M, class T > static void vec_cmp()
{
    Vector< M, T > m, o;
    T a[M], b[M];
    vu::vecany( m, a, "m" );
    vu::vecany( o, b, "o" );
    bool all = true;
    for( size_t i = 0; i < M; ++i )
        all = all & ( a[i] == b[i] );
    vp::check(( m == o ) == all, "== exactly when all components are equal" );
    vp::check(( m != o ) == !all, "!= is the negation of ==" );
    bool less = false, open = true;
    for( size_t i = 0; i < M; ++i )
    {
        less = less | ( open & ( a[i] < b[i] ));
        open = open & !( a[i] < b[i] ) & !( b[i] < a[i] );
    }
    vp::check(( m < o ) == less, "< is lexicographic" );
    vp::check( !(( m < o ) && ( o < m )), "< is asymmetric" );
}

template< size_t M, size_t N, class T > static void mat_tol()
{
    Matrix< M, N, T > m, o;
    T a[M][N], b[M][N];
    vu::mat( m, a, "m" );
    vu::mat( o, b, "o" );
    const T t = vp::inf_< T >( "t" );
    bool all = true;
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
            all = all & ( ab( T( a[i][j] - b[i][j] )) < t );
    vp::check( m.equals( o, t ) == all, "equals( tolerance ) exactly when all differences are below it" );
    vp::check( equals( m, o, t ) == all, "free equals( m, o, tolerance )" );
}
template< size_t M, class T > static void vec_tol()
{
    Vector< M, T > m, o;
    T a[M], b[M];
    vu::vec( m, a, "m" );
    vu::vec( o, b, "o" );
    const T t = vp::inf_< T >( "t" );
    bool all = true, dflt = true;
    for( size_t i = 0; i < M; ++i )
    {
        all = all & ( ab( T( a[i] - b[i] )) < t );
        dflt = dflt & ( ab( T( a[i] - b[i] )) < std::numeric_limits< T >::epsilon( ));
    }
    vp::check( m.equals( o, t ) == all, "equals( tolerance ) exactly when all differences are below it" );
    vp::check( m.equals( o ) == dflt, "default tolerance is the machine epsilon" );
    vp::check( equals( m, o ) == dflt, "free equals( v, w )" );
}
// a NaN is never equal to anything within any tolerance (the other elements agree)
template< class C, size_t K, class T > static void nan_tol()
{
    C m, o;
    const size_t i = vp_pick( "i", -1, K );
    for( size_t k = 0; k < K; ++k )
        m.array[k] = o.array[k] = T( k + 1 );
    m.array[i] = vp::in< T >( "a" );
    o.array[i] = vp::in< T >( "b" );
    const T t = vp::in< T >( "t" );
    vp::assume( m.array[i] != m.array[i] );
    vp::check( !m.equals( o, t ) && !o.equals( m, t ), "a NaN is not equal within a tolerance" );
    vp::check( !( m == o ) && m != o, "a NaN is not equal" );
}

template< class T > struct cmp_gt { bool operator()( T a, T b ) { return a > b; } };
template< class T > static void functor()
{
    Matrix< 2, 3, T > m, o;
    T a[2][3], b[2][3];
    vu::matany( m, a, "m" );
    vu::matany( o, b, "o" );
    bool all = true;
    for( int i = 0; i < 2; ++i )
        for( int j = 0; j < 3; ++j )
            all = all & ( a[i][j] > b[i][j] );
    cmp_gt< T > c;
    vp::check( m.equals( o, c ) == all, "equals( functor ) asks the functor for every pair in order" );
}
VP_FP( functor ) { functor< float >(); }
VP_FP( functord ) { functor< double >(); }
VP_FP( functori ) { functor< int >(); }

// rows (columns) equal up to the sign of whole rows (columns)
template< size_t M, size_t N, class T > static void inverted()
{
    Matrix< M, N, T > m, o;
    T a[M][N], b[M][N];
    vu::mat( m, a, "m" );
    vu::mat( o, b, "o" );
    bool rows = true, cols = true;
    for( size_t i = 0; i < M; ++i )
    {
        bool p = true, n = true;
        for( size_t j = 0; j < N; ++j ) { p = p & ( a[i][j] == b[i][j] ); n = n & ( a[i][j] == -b[i][j] ); }
        rows = rows & ( p | n );
    }
    for( size_t j = 0; j < N; ++j )
    {
        bool p = true, n = true;
        for( size_t i = 0; i < M; ++i ) { p = p & ( a[i][j] == b[i][j] ); n = n & ( a[i][j] == -b[i][j] ); }
        cols = cols & ( p | n );
    }
    matrix_equals_allow_inverted_rows< Matrix< M, N, T > > fr;
    matrix_equals_allow_inverted_columns< Matrix< M, N, T > > fc;
    vp::check( fr( m, o ) == rows, "equal up to inverted rows" );
    vp::check( fc( m, o ) == cols, "equal up to inverted columns" );
}
template< size_t M, size_t N, class T > static void inverted_tol( bool byrow )
{
    Matrix< M, N, T > m, o;
    T a[M][N], b[M][N];
    vu::mat( m, a, "m" );
    vu::mat( o, b, "o" );
    const T t = vp::inf_< T >( "t" );
    bool rows = true, cols = true;
    for( size_t i = 0; i < M; ++i )
    {
        bool p = true, n = true;
        for( size_t j = 0; j < N; ++j ) { p = p & ( ab( a[i][j] - b[i][j] ) < t ); n = n & ( ab( a[i][j] + b[i][j] ) < t ); }
        rows = rows & ( p | n );
    }
    for( size_t j = 0; j < N; ++j )
    {
        bool p = true, n = true;
        for( size_t i = 0; i < M; ++i ) { p = p & ( ab( a[i][j] - b[i][j] ) < t ); n = n & ( ab( a[i][j] + b[i][j] ) < t ); }
        cols = cols & ( p | n );
    }
    matrix_equals_allow_inverted_rows< Matrix< M, N, T > > fr;
    matrix_equals_allow_inverted_columns< Matrix< M, N, T > > fc;
    if( byrow ) vp::check( fr( m, o, t ) == rows, "equal up to inverted rows, with tolerance" );
    else vp::check( fc( m, o, t ) == cols, "equal up to inverted columns, with tolerance" );
}

template< class T > static void quat_cmp()
{
    T a[4], b[4];
    for( int i = 0; i < 4; ++i ) { a[i] = vp::in< T >( "a", i ); b[i] = vp::in< T >( "b", i ); }
    const Quaternion< T > p( a[0], a[1], a[2], a[3] ), q( b[0], b[1], b[2], b[3] );
    bool all = true;
    for( int i = 0; i < 4; ++i ) all = all & ( a[i] == b[i] );
    vp::check(( p == q ) == all, "quaternion ==" );
    vp::check(( p != q ) == !all, "quaternion !=" );
    Vector< 4, T > v( b[0], b[1], b[2], b[3] );
    vp::check(( p == v ) == all, "quaternion == Vector4" );
    vp::check(( p != v ) == !all, "quaternion != Vector4" );
    const bool real = ( a[3] == b[0] ) & ( a[0] == 0 ) & ( a[1] == 0 ) & ( a[2] == 0 );
    vp::check(( p == b[0] ) == real, "quaternion == scalar" );
    vp::check(( p != b[0] ) == !real, "quaternion != scalar" );
}
VP_FP( akin )
{
    float a[4], b[4];
    for( int i = 0; i < 4; ++i ) { a[i] = vp::inf_< float >( "a", i ); b[i] = vp::inf_< float >( "b", i ); }
    Quaternion< float > p( a[0], a[1], a[2], a[3] );
    const Quaternion< float > q( b[0], b[1], b[2], b[3] );
    const float d = vp::inf_< float >( "d" );
    bool all = true;
    for( int i = 0; i < 4; ++i ) all = all & ( ab( a[i] - b[i] ) <= d );
    vp::check( p.is_akin( q, d ) == all, "is_akin exactly when all components are within delta" );
}

template< class T > static void aabb_cmp()
{
    T a[12];
    for( int i = 0; i < 12; ++i ) a[i] = vp::in< T >( "a", i );
    const AABB< T > p( Vector< 3, T >( a[0], a[1], a[2] ), Vector< 3, T >( a[3], a[4], a[5] ));
    const AABB< T > q( Vector< 3, T >( a[6], a[7], a[8] ), Vector< 3, T >( a[9], a[10], a[11] ));
    bool all = true;
    for( int i = 0; i < 6; ++i ) all = all & ( a[i] == a[ 6 + i ] );
    vp::check(( p == q ) == all, "AABB ==" );
    vp::check(( p != q ) == !all, "AABB !=" );
}

VP_FP( m22f ) { mat_cmp< 2, 2, float >(); }
VP_FP( m23d ) { mat_cmp< 2, 3, double >(); }
VP_FP( m32i ) { mat_cmp< 3, 2, int >(); }
VP_FP( m44f ) { mat_cmp< 4, 4, float >(); }
VP_FP( v4f ) { vec_cmp< 4, float >(); }
VP_FP( v3d ) { vec_cmp< 3, double >(); }
VP_FP( v2i ) { vec_cmp< 2, int >(); }
VP_FP( v4b ) { vec_cmp< 4, uint8_t >(); }
VP_FP( v1d ) { vec_cmp< 1, double >(); }
VP_REAL( mtol22f ) { mat_tol< 2, 2, float >(); }
VP_REAL( mtol13d ) { mat_tol< 1, 3, double >(); }
VP_REAL( mtol33d ) { mat_tol< 3, 3, double >(); }
VP_REAL( vtol3f ) { vec_tol< 3, float >(); }
VP_REAL( vtol4d ) { vec_tol< 4, double >(); }
VP_FP( nan_m_f ) { nan_tol< Matrix< 2, 2, float >, 4, float >(); }
VP_FP( nan_v_f ) { nan_tol< Vector< 3, float >, 3, float >(); }
VP_FP( nan_m_d ) { nan_tol< Matrix< 1, 3, double >, 3, double >(); }
VP_FP( nan_v_d ) { nan_tol< Vector< 4, double >, 4, double >(); }
VP_FP( inv22f ) { inverted< 2, 2, float >(); }
VP_FP( inv23d ) { inverted< 2, 3, double >(); }
VP_REAL( invtol_r22 ) { inverted_tol< 2, 2, float >( true ); }
VP_REAL( invtol_c22 ) { inverted_tol< 2, 2, float >( false ); }
VP_REAL( invtol_r23 ) { inverted_tol< 2, 3, double >( true ); }
VP_REAL( invtol_c32 ) { inverted_tol< 3, 2, double >( false ); }
VP_FP( quat_f ) { quat_cmp< float >(); }
VP_FP( quat_d ) { quat_cmp< double >(); }
VP_FP( aabb_f ) { aabb_cmp< float >(); }
VP_FP( aabb_d ) { aabb_cmp< double >(); }
VP_FP( m11f ) { mat_cmp< 1, 1, float >(); }
VP_FP( m13f ) { mat_cmp< 1, 3, float >(); }
VP_FP( m31f ) { mat_cmp< 3, 1, float >(); }
VP_FP( m33f ) { mat_cmp< 3, 3, float >(); }
VP_FP( m24f ) { mat_cmp< 2, 4, float >(); }
VP_FP( m42f ) { mat_cmp< 4, 2, float >(); }
VP_FP( v5f ) { vec_cmp< 5, float >(); }
VP_REAL( mtol32d ) { mat_tol< 3, 2, double >(); }
VP_REAL( mtol21f ) { mat_tol< 2, 1, float >(); }
VP_REAL( vtol5d ) { vec_tol< 5, double >(); }
VP_FP( inv32f ) { inverted< 3, 2, float >(); }
VP_FP( inv13d ) { inverted< 1, 3, double >(); }
VP_FP( m44d ) { mat_cmp< 4, 4, double >(); }
VP_FP( m33d ) { mat_cmp< 3, 3, double >(); }
VP_FP( v3f ) { vec_cmp< 3, float >(); }
VP_FP( v4d ) { vec_cmp< 4, double >(); }
VP_FP( v2d ) { vec_cmp< 2, double >(); }
VP_FP( v3i ) { vec_cmp< 3, int >(); }
VP_FP( nan_m4_f ) { nan_tol< Matrix< 4, 4, float >, 16, float >(); }
VPT_FP( inv33d ) { inverted< 3, 3, double >(); }
VP_REAL( mtol44d ) { mat_tol< 4, 4, double >(); }
