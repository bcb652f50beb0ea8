// element-wise matrix arithmetic, including operands that alias the target
//@ variant release -DNDEBUG
#include "vu.h"
using namespace vmml;

template< class T > static typename std::enable_if< std::is_integral< T >::value >::type small( T a )
{ vp::assume( a <= T( 20000 )); if( std::numeric_limits< T >::is_signed ) vp::assume( a >= T( -20000 )); }
template< class T > static typename std::enable_if< !std::is_integral< T >::value >::type small( T ) {}

template< size_t M, size_t N, class T > static void mat_mat()
{
    Matrix< M, N, T > m, o, r;
    T a[M][N], b[M][N], e[M][N];
    vu::mat( m, a, "a" );
    vu::mat( o, b, "b" );
    const uint64_t how = vp_pick( "op", -1, 6 );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            small( a[i][j] ); small( b[i][j] );
            e[i][j] = how == 0 || how == 3 ? a[i][j] + b[i][j] : how == 1 || how == 4 ? a[i][j] - b[i][j]
                    : how == 2 ? a[i][j] * b[i][j] : -a[i][j];
        }
    r = m;
    switch( how )
    {
      case 0: r = m + o; break;
      case 1: r = m - o; break;
      case 2: r.multiply_piecewise( o ); break;
      case 3: r += o; break;
      case 4: r -= o; break;
      default: r = -m; vu::same( m.negate(), e, "negate()" ); break;
    }
    vu::same( r, e, "matrix op matrix" );
    vu::same( m, a, "the left operand is unchanged" );
    vu::same( o, b, "the right operand is unchanged" );
}

template< size_t M, size_t N, class T > static void mat_scalar()
{
    Matrix< M, N, T > m, r;
    T a[M][N], e[M][N];
    vu::mat( m, a, "a" );
    const T s = vp::inf_< T >( "s" );
    small( s );
    const uint64_t how = vp_pick( "op", -1, 6 );
    if(( how == 1 || how == 3 ) && !vp::Special::on( )) vp::assume( s != T( 0 ));
    r = m;
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            small( a[i][j] );
            e[i][j] = how == 0 || how == 2 ? a[i][j] * s : how == 1 || how == 3 ? a[i][j] / s
                    : how == 4 ? a[i][j] + s : a[i][j] - s;
        }
    switch( how )
    {
      case 0: r = m * s; break;
      case 1: r = m / s; break;
      case 2: r *= s; break;
      case 3: r /= s; break;
      case 4: r += s; break;
      default: r -= s; break;
    }
    vu::same( r, e, "matrix op scalar" );
    vu::same( m, a, "the matrix operand is unchanged" );
}

template< size_t M, size_t N, class T > static void alias()
{
    Matrix< M, N, T > m;
    T a[M][N], e[M][N];
    vu::mat( m, a, "a" );
    const uint64_t how = vp_pick( "op", -1, 7 );
    const size_t r = vp_pick( "r", -1, M ), c = vp_pick( "c", -1, N );
    if( how == 4 && !vp::Special::on( )) vp::assume( a[r][c] != T( 0 ));
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            small( a[i][j] );
            const T x = a[i][j], k = a[r][c];
            e[i][j] = how == 0 ? x + x : how == 1 ? x - x : how == 2 ? x * x : how == 3 ? x * k : how == 4 ? x / k
                    : how == 5 ? x + k : x - k;
        }
    switch( how )
    {
      case 0: m += m; break;
      case 1: m -= m; break;
      case 2: m.multiply_piecewise( m ); break;
      case 3: m *= m( r, c ); break;
      case 4: m /= m( r, c ); break;
      case 5: m += m( r, c ); break;
      default: m -= m( r, c ); break;
    }
    vu::same( m, e, "operand aliases the target" );
}

VP_REAL( mm22f ) { mat_mat< 2, 2, float >(); }
VP_REAL( mm23d ) { mat_mat< 2, 3, double >(); }
VP_REAL( mm44f ) { mat_mat< 4, 4, float >(); }
VP_REAL( mm32i ) { mat_mat< 3, 2, int >(); }
VP_REAL( mm15d ) { mat_mat< 1, 5, double >(); }
VP_REAL( ms22d ) { mat_scalar< 2, 2, double >(); }
VP_REAL( ms23f ) { mat_scalar< 2, 3, float >(); }
VP_REAL( ms44d ) { mat_scalar< 4, 4, double >(); }
VP_REAL( ms32i ) { mat_scalar< 3, 2, int >(); }
VP_REAL( al22f ) { alias< 2, 2, float >(); }
VP_REAL( al23d ) { alias< 2, 3, double >(); }
VP_REAL( al31i ) { alias< 3, 1, int >(); }
VP_REAL( mm67d ) { mat_mat< 6, 7, double >(); }
VP_REAL( ms67d ) { mat_scalar< 6, 7, double >(); }
VPT_REAL( mm1011d ) { mat_mat< 10, 11, double >(); }
VPT_REAL( ms1110f ) { mat_scalar< 11, 10, float >(); }
// all small shapes
VP_REAL( all_mm1 ) { mat_mat< 1, 1, double >(); mat_mat< 1, 2, double >(); mat_mat< 1, 3, double >(); mat_mat< 1, 4, double >(); }
VP_REAL( all_ms1 ) { mat_scalar< 1, 1, double >(); mat_scalar< 1, 2, double >(); mat_scalar< 1, 3, double >(); mat_scalar< 1, 4, double >(); }
VP_REAL( all_mm2 ) { mat_mat< 2, 1, double >(); mat_mat< 2, 2, double >(); mat_mat< 2, 3, double >(); mat_mat< 2, 4, double >(); }
VP_REAL( all_ms2 ) { mat_scalar< 2, 1, double >(); mat_scalar< 2, 2, double >(); mat_scalar< 2, 3, double >(); mat_scalar< 2, 4, double >(); }
VP_REAL( all_mm3 ) { mat_mat< 3, 1, double >(); mat_mat< 3, 2, double >(); mat_mat< 3, 3, double >(); mat_mat< 3, 4, double >(); }
VP_REAL( all_ms3 ) { mat_scalar< 3, 1, double >(); mat_scalar< 3, 2, double >(); mat_scalar< 3, 3, double >(); mat_scalar< 3, 4, double >(); }
VP_REAL( all_mm4 ) { mat_mat< 4, 1, double >(); mat_mat< 4, 2, double >(); mat_mat< 4, 3, double >(); mat_mat< 4, 4, double >(); }
VP_REAL( all_ms4 ) { mat_scalar< 4, 1, double >(); mat_scalar< 4, 2, double >(); mat_scalar< 4, 3, double >(); mat_scalar< 4, 4, double >(); }
// infinities, NaN and signed zeros
VP_FP( sp_mm22f ) { vp::Special on; mat_mat< 2, 2, float >(); }
VP_FP( sp_mm32d ) { vp::Special on; mat_mat< 3, 2, double >(); }
VP_FP( sp_ms22f ) { vp::Special on; mat_scalar< 2, 2, float >(); }
VP_FP( sp_ms23d ) { vp::Special on; mat_scalar< 2, 3, double >(); }
VP_FP( sp_al22f ) { vp::Special on; alias< 2, 2, float >(); }
