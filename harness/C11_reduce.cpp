// reductions: extrema and their indices, non-zero counts, threshold, sums, norms, clamp, unit vectors
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/util.hpp>
using namespace vmml;

template< class T > static typename std::enable_if< std::is_integral< T >::value >::type small( T a )
{
    // the magnitude is an integer of the type
    if( std::numeric_limits< T >::is_signed )
        vp::assume( a > std::numeric_limits< T >::min( ));
}
template< class T > static typename std::enable_if< !std::is_integral< T >::value >::type small( T ) {}

// elements of larger integer matrices are drawn from fewer bits
template< class T, bool ALL > struct Draw { static T of( const char* n, int i ) { return vp::inf_< T >( n, i ); } };
template<> struct Draw< int, false > { static int of( const char* n, int i ) { return vp::in< int8_t >( n, i ); } };
template< size_t M, size_t N, class T > static void drawn( Matrix< M, N, T >& m, T (&a)[M][N], const char* n )
{
    for( size_t r = 0; r < M; ++r )
        for( size_t c = 0; c < N; ++c )
            m.array[ c * M + r ] = a[r][c] = Draw< T, ( M * N < 3 ) >::of( n, int( r * N + c ));
}

// sums of T: integers add up in double
template< class T > struct Wide { typedef T t; };
template<> struct Wide< int > { typedef double t; };

// a double that may have been computed in T
static void near( double g, float w, const char* l ) { vp::eq( float( g ), w, l ); }
static void near( double g, double w, const char* l ) { vp::eq( g, w, l ); }

// ---- comparisons (bit-precise)
template< size_t M, size_t N, class T > static void mat_extrema()
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::mat( m, a, "a" );
    T lo = a[0][0], hi = a[0][0], alo = vp::absv( a[0][0] ), ahi = alo;
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            small( a[i][j] );
            const T v = a[i][j], w = vp::absv( v );
            lo = v < lo ? v : lo;
            hi = v > hi ? v : hi;
            alo = w < alo ? w : alo;
            ahi = w > ahi ? w : ahi;
        }
    switch( vp_pick( "what", -1, 4 ))
    {
      case 0: vp::check( m.get_min() == lo, "get_min() is the smallest element" ); break;
      case 1: vp::check( m.get_max() == hi, "get_max() is the largest element" ); break;
      case 2: vp::check( m.get_abs_min() == alo, "get_abs_min() is the smallest magnitude" ); break;
      default: vp::check( m.get_abs_max() == ahi, "get_abs_max() is the largest magnitude" ); break;
    }
    vu::same( m, a, "the matrix is unchanged" );
}

template< size_t M, size_t N, class T > static void mat_count()
{
    Matrix< M, N, T > m;
    T a[M][N], e[M][N];
    drawn( m, a, "a" );
    const T t = Draw< T, ( M * N < 3 ) >::of( "t", -1 );
    small( t );
    size_t nz = 0, big = 0;
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            small( a[i][j] );
            const T w = vp::absv( a[i][j] );
            nz += a[i][j] != T( 0 );
            big += w > t;
            e[i][j] = w <= t ? T( 0 ) : a[i][j];
        }
    vp::check( m.nnz() == nz, "nnz() counts the non-zero elements" );
    vp::check( m.nnz( t ) == big, "nnz( t ) counts the elements above t in magnitude" );
    vu::same( m, a, "counting leaves the matrix unchanged" );
    m.threshold( t );
    vu::same( m, e, "threshold( t ) zeroes exactly the elements not above t in magnitude" );
}

// the threshold is an element of the matrix, or the bound a component of the vector
template< size_t M, size_t N, class T > static void mat_alias()
{
    Matrix< M, N, T > m;
    T a[M][N], e[M][N];
    drawn( m, a, "a" );
    const size_t r = vp_pick( "r", -1, M ), c = vp_pick( "c", -1, N );
    const T t = a[r][c];
    size_t big = 0;
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            small( a[i][j] );
            const T w = vp::absv( a[i][j] );
            big += w > t;
            e[i][j] = w <= t ? T( 0 ) : a[i][j];
        }
    vp::check( m.nnz( m( r, c )) == big, "nnz( t ) with an element of the matrix" );
    m.threshold( m( r, c ));
    vu::same( m, e, "threshold( t ) with an element of the matrix" );
}
template< size_t M, class T > static void clamp_alias()
{
    Vector< M, T > v;
    T a[M], e[M];
    vu::vecnn( v, a, "a" );
    const size_t l = vp_pick( "l", -1, M ), h = vp_pick( "h", -1, M );
    vp::assume( a[l] <= a[h] );
    for( size_t i = 0; i < M; ++i )
        e[i] = a[i] < a[l] ? a[l] : a[i] > a[h] ? a[h] : a[i];
    v.clamp( v( l ), v( h ));
    vu::same( v, e, "clamp( min, max ) with components of the vector" );
}

template< size_t M, class T > static void vec_extrema()
{
    Vector< M, T > v;
    T a[M];
    vu::vec( v, a, "a" );
    size_t lo = 0, hi = 0, alo = 0, ahi = 0, nz = 0;
    for( size_t i = 0; i < M; ++i )
    {
        small( a[i] );
        if( a[i] < a[lo] ) lo = i;
        if( a[i] > a[hi] ) hi = i;
        if( vp::absv( a[i] ) < vp::absv( a[alo] )) alo = i;
        if( vp::absv( a[i] ) > vp::absv( a[ahi] )) ahi = i;
        nz += a[i] != T( 0 );
    }
    const Vector< M, T >& c = v;
    switch( vp_pick( "what", -1, 7 ))
    {
      case 0: vp::check( c.find_min_index() == lo, "find_min_index(): first smallest" ); break;
      case 1: vp::check( c.find_max_index() == hi, "find_max_index(): first largest" ); break;
      case 2: vp::check( c.find_abs_min_index() == alo, "find_abs_min_index(): first smallest magnitude" ); break;
      case 3: vp::check( c.find_abs_max_index() == ahi, "find_abs_max_index(): first largest magnitude" ); break;
      case 4: vp::check( c.find_min() == a[lo] && &v.find_min() == v.array + lo, "find_min()" ); break;
      case 5: vp::check( c.find_max() == a[hi] && &v.find_max() == v.array + hi, "find_max()" ); break;
      default: vp::check( c.nnz() == nz, "nnz() counts the non-zero components" ); break;
    }
    vu::same( v, a, "the vector is unchanged" );
}

template< size_t M, class T > static void clamps()
{
    Vector< M, T > v;
    T a[M], e[M];
    vu::vecnn( v, a, "a" );
    T lo = T( 0 ), hi = T( 1 );
    if( vp_pick( "default", -1, 2 ) == 0 )
    {
        lo = vp::nn< T >( "lo" );
        hi = vp::nn< T >( "hi" );
        vp::assume( lo <= hi );
        v.clamp( lo, hi );
    }
    else
        v.clamp();
    for( size_t i = 0; i < M; ++i )
        e[i] = a[i] < lo ? lo : a[i] > hi ? hi : a[i];
    vu::same( v, e, "clamp( min, max )" );
}

template< size_t M, class T > static void unit()
{
    Vector< M, T > v;
    T a[M];
    vu::vecnn( v, a, "a" );
    size_t ones = 0, zeros = 0;
    for( size_t i = 0; i < M; ++i )
    {
        ones += a[i] == T( 1 );
        zeros += a[i] == T( 0 );
    }
    vp::check( v.is_unit_vector() == ( ones == 1 && zeros == M - 1 ), "is_unit_vector(): one 1, otherwise 0" );
}

template< size_t M, class T > static void minmax()
{
    Vector< M, T > v, w;
    T a[M], b[M], lo[M], hi[M];
    vu::vecmod( v, a, "a" );
    vu::vec( w, b, "b" );
    for( size_t i = 0; i < M; ++i )
    {
        lo[i] = a[i] < b[i] ? a[i] : b[i];
        hi[i] = a[i] < b[i] ? b[i] : a[i];
    }
    const Vector< M, T > mn = vmml::min( v, w ), mx = vmml::max( v, w );
    for( size_t i = 0; i < M; ++i )
    {
        vp::check( mn.array[i] == lo[i], "min( a, b ) per component" );
        vp::check( mx.array[i] == hi[i], "max( a, b ) per component" );
    }
}

// ---- sums and norms (exact reals)
template< size_t M, size_t N, class T > static void sums()
{
    Matrix< M, N, T > m;
    T a[M][N];
    std::is_integral< T >::value && M * N > 2 ? drawn( m, a, "a" ) : vu::matmod( m, a, "a" );
    double s = 0;
    typename Wide< T >::t q = 0;
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            s += double( a[i][j] );
            q += a[i][j] * a[i][j];
        }
    vp::eq( m.sum_elements(), s, "sum_elements()" );
    const double f = m.frobenius_norm();
    vp::check( f >= 0, "frobenius_norm() >= 0" );
    near( f * f, q, "frobenius_norm() squared is the sum of squares" );
    Vector< N, T > cs;
    m.columnwise_sum( cs );
    for( size_t j = 0; j < N; ++j )
    {
        T e = 0;
        for( size_t i = 0; i < M; ++i )
            e += a[i][j];
        vp::eq( cs.array[j], e, "columnwise_sum()", int( j ));
    }
    vu::same( m, a, "the matrix is unchanged" );
}

template< size_t M, size_t N, class T > static void halves()
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matmod( m, a, "a" );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
            small( a[i][j] );
    Matrix< M / 2, N, T > r;
    Matrix< M, N / 2, T > c;
    T er[M / 2][N], ec[M][N / 2];
    vu::mat( r, er, "oldr" );
    vu::mat( c, ec, "oldc" );
    for( size_t i = 0; i < M / 2; ++i )
        for( size_t j = 0; j < N; ++j )
            er[i][j] = a[2 * i][j] + a[2 * i + 1][j];
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N / 2; ++j )
            ec[i][j] = a[i][2 * j] + a[i][2 * j + 1];
    const uint64_t before = vp_live();
    m.sum_rows( r );
    m.sum_columns( c );
    vp::check( vp_live() == before, "sum_rows() and sum_columns() free their memory" );
    vu::same( r, er, "sum_rows() adds neighbouring rows" );
    vu::same( c, ec, "sum_columns() adds neighbouring columns" );
    vu::same( m, a, "the matrix is unchanged" );
}

template< size_t M, size_t N, class T > static void pnorm()
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matmod( m, a, "a" );
    const int p = int( vp_pick( "p", -1, 4 )) + 1;
    double s = 0;
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            const double w = vp::absv( a[i][j] );
            double t = w;
            for( int k = 1; k < p; ++k )
                t *= w;
            s += t;
        }
    const double got = m.p_norm( double( p ));
    if( p == 1 )
        vp::eq( got, s, "p_norm( 1 ) is the sum of magnitudes" );
    else if( p == 2 )
    {
        vp::check( got >= 0, "p_norm( 2 ) >= 0" );
        vp::eq( got * got, s, "p_norm( 2 ) squared is the sum of squares" );
    }
    else
        vp::eq( got, std::pow( s, 1. / p ), "p_norm( p ) is the p-th root of the sum of |x|^p" );
}

template< size_t M, class T > static void vec_sums()
{
    Vector< M, T > v;
    T a[M];
    vu::vecmod( v, a, "a" );
    typename Wide< T >::t q = 0;
    T pr = T( 1 ), mh = T( 0 );
    for( size_t i = 0; i < M; ++i )
    {
        small( a[i] );
        if( std::is_integral< T >::value ) vp::assume( a[i] <= T( 25 ) && a[i] >= T( -25 ));
        q += a[i] * a[i];
        pr *= a[i];
        mh += vp::absv( a[i] );
    }
    vp::eq( v.product(), pr, "product()" );
    vp::eq( manhattan( v ), mh, "manhattan()" );
    const double n = v.norm();
    vp::check( n >= 0, "norm() >= 0" );
    near( n * n, q, "norm() squared is the sum of squares" );
    vu::same( v, a, "the vector is unchanged" );
}

VP_FP( alias22f ) { mat_alias< 2, 2, float >(); }
VP_FP( alias22i ) { mat_alias< 2, 2, int >(); }
VP_FP( calias3f ) { clamp_alias< 3, float >(); }
VP_FP( calias4i ) { clamp_alias< 4, int >(); }
VP_FP( mext22f ) { mat_extrema< 2, 2, float >(); }
VP_FP( mext13d ) { mat_extrema< 1, 3, double >(); }
VP_FP( mext32i ) { mat_extrema< 3, 2, int >(); }
VP_FP( mext23b ) { mat_extrema< 2, 3, uint8_t >(); }
VP_FP( mext22s ) { mat_extrema< 2, 2, int8_t >(); }
VP_FP( mcnt22f ) { mat_count< 2, 2, float >(); }
VP_FP( mcnt13d ) { mat_count< 1, 3, double >(); }
VP_FP( mcnt32i ) { mat_count< 3, 2, int >(); }
VP_FP( mcnt23b ) { mat_count< 2, 3, uint8_t >(); }
VP_FP( vext3f ) { vec_extrema< 3, float >(); }
VP_FP( vext4d ) { vec_extrema< 4, double >(); }
VP_FP( vext2f ) { vec_extrema< 2, float >(); }
VP_FP( vext4i ) { vec_extrema< 4, int >(); }
VP_FP( clamp3f ) { clamps< 3, float >(); }
VP_FP( clamp4d ) { clamps< 4, double >(); }
VP_FP( clamp2i ) { clamps< 2, int >(); }
VP_FP( clamp2b ) { clamps< 2, uint8_t >(); }
VP_FP( unit3f ) { unit< 3, float >(); }
VP_FP( unit4d ) { unit< 4, double >(); }
VP_FP( unit3i ) { unit< 3, int >(); }
VP_FP( mm3f ) { minmax< 3, float >(); }
VP_FP( mm4d ) { minmax< 4, double >(); }
VP_FP( mm2i ) { minmax< 2, int >(); }
VP_REAL( sums22f ) { sums< 2, 2, float >(); }
VP_REAL( sums23d ) { sums< 2, 3, double >(); }
VP_REAL( sums41d ) { sums< 4, 1, double >(); }
VP_REAL( sums44f ) { sums< 4, 4, float >(); }
VP_REAL( sums32i ) { sums< 3, 2, int >(); }
VP_REAL( half22f ) { halves< 2, 2, float >(); }
VP_REAL( half43d ) { halves< 4, 3, double >(); }
VP_REAL( half54d ) { halves< 5, 4, double >(); }
VP_REAL( half24i ) { halves< 2, 4, int >(); }
VP_REAL( pnorm22d ) { pnorm< 2, 2, double >(); }
VP_REAL( pnorm12f ) { pnorm< 1, 2, float >(); }
VP_REAL( vs3f ) { vec_sums< 3, float >(); }
VP_REAL( vs4d ) { vec_sums< 4, double >(); }
VP_REAL( vs2d ) { vec_sums< 2, double >(); }
VP_REAL( vs3i ) { vec_sums< 3, int >(); }
VPT_FP( mext23d ) { mat_extrema< 2, 3, double >(); }
VP_FP( vext6d ) { vec_extrema< 6, double >(); }
VP_REAL( sums67d ) { sums< 6, 7, double >(); }
VP_REAL( half87d ) { halves< 8, 7, double >(); }
VPT_REAL( sums1113d ) { sums< 11, 13, double >(); }
// all small shapes
VP_REAL( all_sums1 ) { sums< 1, 1, double >(); sums< 1, 2, double >(); sums< 1, 3, double >(); }
VP_REAL( all_sums2 ) { sums< 2, 1, double >(); sums< 2, 2, double >(); sums< 2, 3, double >(); }
VP_REAL( all_sums3 ) { sums< 3, 1, double >(); sums< 3, 2, double >(); sums< 3, 3, double >(); }
VP_REAL( all_half2 ) { halves< 2, 2, double >(); halves< 2, 3, double >(); halves< 2, 4, double >(); halves< 2, 5, double >(); }
VP_REAL( all_half3 ) { halves< 3, 2, double >(); halves< 3, 3, double >(); halves< 3, 4, double >(); halves< 3, 5, double >(); }
VP_REAL( all_half4 ) { halves< 4, 2, double >(); halves< 4, 3, double >(); halves< 4, 4, double >(); halves< 4, 5, double >(); }
VP_REAL( all_half5 ) { halves< 5, 2, double >(); halves< 5, 3, double >(); halves< 5, 4, double >(); halves< 5, 5, double >(); }
VP_REAL( sums21i ) { sums< 2, 1, int >(); }
VP_FP( mcnt12i ) { mat_count< 1, 2, int >(); }
VP_FP( alias12i ) { mat_alias< 1, 2, int >(); }
VP_FP( mext12i ) { mat_extrema< 1, 2, int >(); }
