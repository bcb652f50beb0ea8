// component-wise vector arithmetic, including operands that alias the target
//@ variant release -DNDEBUG
#include "vu.h"
using namespace vmml;

template< size_t M, class T > static void assume_nz( const T (&b)[M] )
{ for( size_t i = 0; i < M && !vp::Special::on(); ++i ) vp::assume( b[i] != T( 0 )); }
// integer division truncates and MIN / -1 is undefined: keep it out
template< class T > static typename std::enable_if< std::is_integral< T >::value >::type nomin( T a )
{ vp::assume( a != std::numeric_limits< T >::min() || !std::numeric_limits< T >::is_signed ); }
template< class T > static typename std::enable_if< !std::is_integral< T >::value >::type nomin( T ) {}
// signed overflow is undefined behaviour: keep integers small
template< class T > static typename std::enable_if< std::is_integral< T >::value && ( sizeof( T ) > 1 ) >::type small( T a )
{ vp::assume( a <= T( 20000 )); if( std::numeric_limits< T >::is_signed ) vp::assume( a >= T( -20000 )); }
template< class T > static typename std::enable_if< !std::is_integral< T >::value || ( sizeof( T ) == 1 ) >::type small( T ) {}

template< size_t M, class T > static void vec_vec()
{
    Vector< M, T > v, w;
    T a[M], b[M];
    vu::vec( v, a, "a" );
    vu::vec( w, b, "b" );
    for( size_t i = 0; i < M; ++i ) { small( a[i] ); small( b[i] ); }
    const uint64_t how = vp_pick( "op", -1, 8 );
    if( ( how & 3 ) == 3 ) assume_nz( b );
    Vector< M, T > r( v );
    switch( how )
    {
      case 0: r = v + w; break;
      case 1: r = v - w; break;
      case 2: r = v * w; break;
      case 3: r = v / w; break;
      case 4: r += w; break;
      case 5: r -= w; break;
      case 6: r *= w; break;
      default: r /= w; break;
    }
    for( size_t i = 0; i < M; ++i )
    {
        const T e = ( how & 3 ) == 0 ? T( a[i] + b[i] ) : ( how & 3 ) == 1 ? T( a[i] - b[i] )
                  : ( how & 3 ) == 2 ? T( a[i] * b[i] ) : T( a[i] / b[i] );
        vp::eq( r.array[i], e, "vector op vector", int( i ));
    }
    vu::same( v, a, "the left operand is unchanged" );
    vu::same( w, b, "the right operand is unchanged" );
}

template< size_t M, class T > static void vec_scalar()
{
    Vector< M, T > v;
    T a[M];
    vu::vec( v, a, "a" );
    const T s = vp::inf_< T >( "s" );
    for( size_t i = 0; i < M; ++i ) small( a[i] );
    small( s );
    const uint64_t how = vp_pick( "op", -1, 9 );
    if(( how == 3 || how == 7 ) && !vp::Special::on( )) vp::assume( s != T( 0 ));
    Vector< M, T > r( v );
    switch( how )
    {
      case 0: r = v + s; break;
      case 1: r = v - s; break;
      case 2: r = v * s; break;
      case 3: r = v / s; break;
      case 4: r += s; break;
      case 5: r -= s; break;
      case 6: r *= s; break;
      case 7: r /= s; break;
      default: r = s * v; break;
    }
    for( size_t i = 0; i < M; ++i )
    {
        const T e = how == 8 || ( how & 3 ) == 2 ? T( a[i] * s ) : ( how & 3 ) == 0 ? T( a[i] + s )
                  : ( how & 3 ) == 1 ? T( a[i] - s ) : T( a[i] / s );
        vp::eq( r.array[i], e, "vector op scalar", int( i ));
    }
    vu::same( v, a, "the vector operand is unchanged" );
}

// the operand is the vector itself, or one of its components
template< size_t M, class T > static void alias()
{
    Vector< M, T > v;
    T a[M];
    vu::vec( v, a, "a" );
    for( size_t i = 0; i < M; ++i ) small( a[i] );
    const uint64_t how = vp_pick( "op", -1, 8 );
    const size_t k = vp_pick( "k", -1, M );
    if( how == 3 ) assume_nz( a );
    if( how == 7 && !vp::Special::on( )) vp::assume( a[k] != T( 0 ));
    switch( how )
    {
      case 0: v += v; break;
      case 1: v -= v; break;
      case 2: v *= v; break;
      case 3: v /= v; break;
      case 4: v += v( k ); break;
      case 5: v -= v( k ); break;
      case 6: v *= v( k ); break;
      default: v /= v( k ); break;
    }
    for( size_t i = 0; i < M; ++i )
    {
        const T b = how < 4 ? a[i] : a[k];
        const T e = ( how & 3 ) == 0 ? T( a[i] + b ) : ( how & 3 ) == 1 ? T( a[i] - b )
                  : ( how & 3 ) == 2 ? T( a[i] * b ) : T( a[i] / b );
        vp::eq( v.array[i], e, "operand aliases the target", int( i ));
    }
}

template< size_t M, class T > static void unary()
{
    Vector< M, T > v;
    T a[M];
    vu::vec( v, a, "a" );
    for( size_t i = 0; i < M; ++i ) small( a[i] );
    const Vector< M, T > n = -v;
    vu::same( v, a, "unary minus leaves its operand unchanged" );
    const Vector< M, T >& ref = v.negate();
    vp::check( &ref == &v, "negate returns the vector" );
    T p = a[0];
    for( size_t i = 0; i < M; ++i )
    {
        vp::eq( n.array[i], T( -a[i] ), "unary minus", int( i ));
        vp::eq( v.array[i], T( -a[i] ), "negate()", int( i ));
        if( i ) p *= a[i];
    }
    if( std::is_floating_point< T >::value || sizeof( T ) == 1 )
        vp::eq(( -n ).product(), p, "product of the components" );
}

template< size_t M, class T > static void recip()
{
    Vector< M, T > v, w, q;
    T a[M], b[M];
    vu::vec( v, a, "a" );
    vu::vec( w, b, "b" );
    assume_nz( a );
    v.reciprocal();
    w.reciprocal_safe();
    for( size_t i = 0; i < M; ++i )
    {
        vp::eq( v.array[i] * a[i], T( 1 ), "reciprocal", int( i ));
        if( b[i] == T( 0 ))
            vp::eq( w.array[i], std::numeric_limits< T >::max(), "reciprocal_safe of zero", int( i ));
        else
            vp::eq( w.array[i] * b[i], T( 1 ), "reciprocal_safe", int( i ));
        q.array[i] = a[i] < T( 0 ) ? T( -a[i] ) : a[i];
    }
    const Vector< M, T > s( q );
    q.sqrt_elementwise();
    for( size_t i = 0; i < M; ++i )
    {
        vp::eq( q.array[i] * q.array[i], s.array[i], "sqrt_elementwise squared", int( i ));
        vp::le( T( 0 ), q.array[i], "sqrt_elementwise is not negative", int( i ));
    }
}

VP_REAL( vv2f ) { vec_vec< 2, float >(); }
VP_REAL( vv3d ) { vec_vec< 3, double >(); }
VP_REAL( vv4f ) { vec_vec< 4, float >(); }
VP_REAL( vv5f ) { vec_vec< 5, float >(); }
VP_REAL( vv3i ) { vec_vec< 3, int >(); }
VP_REAL( vv4b ) { vec_vec< 4, uint8_t >(); }
VP_REAL( vs2d ) { vec_scalar< 2, double >(); }
VP_REAL( vs3f ) { vec_scalar< 3, float >(); }
VP_REAL( vs4d ) { vec_scalar< 4, double >(); }
VP_REAL( vs1f ) { vec_scalar< 1, float >(); }
VP_REAL( vs3i ) { vec_scalar< 3, int >(); }
VP_REAL( vs4b ) { vec_scalar< 4, uint8_t >(); }
VP_REAL( alias3f ) { alias< 3, float >(); }
VP_REAL( alias4d ) { alias< 4, double >(); }
VP_REAL( alias2i ) { alias< 2, int >(); }
VP_REAL( unary3f ) { unary< 3, float >(); }
VP_REAL( unary4d ) { unary< 4, double >(); }
VP_REAL( unary2i ) { unary< 2, int >(); }
VP_REAL( unary4b ) { unary< 4, uint8_t >(); }
VP_REAL( recip3f ) { recip< 3, float >(); }
VP_REAL( recip4d ) { recip< 4, double >(); }
VP_REAL( vv9d ) { vec_vec< 9, double >(); }
VP_REAL( vs9d ) { vec_scalar< 9, double >(); }
VPT_REAL( vv17d ) { vec_vec< 17, double >(); }
VP_REAL( vv1d ) { vec_vec< 1, double >(); }
VP_REAL( vv2d ) { vec_vec< 2, double >(); }
VP_REAL( vs5f ) { vec_scalar< 5, float >(); }
VP_REAL( unary1d ) { unary< 1, double >(); }
VP_REAL( unary5f ) { unary< 5, float >(); }
VP_REAL( unary7d ) { unary< 7, double >(); }
VP_REAL( recip2d ) { recip< 2, double >(); }

// infinities, NaN and signed zeros
VP_FP( sp_vv3f ) { vp::Special on; vec_vec< 3, float >(); }
VP_FP( sp_vv4d ) { vp::Special on; vec_vec< 4, double >(); }
VP_FP( sp_vs4f ) { vp::Special on; vec_scalar< 4, float >(); }
VP_FP( sp_vs3d ) { vp::Special on; vec_scalar< 3, double >(); }
VP_FP( sp_al3f ) { vp::Special on; alias< 3, float >(); }
VP_FP( sp_un3d ) { vp::Special on; unary< 3, double >(); }
