// quantisation of matrices and scaling of vectors to integer ranges
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/matrix.hpp>
#include <vmmlib/vector.hpp>
using namespace vmml;

template< class TT > struct rng
{
    static const long lo = std::numeric_limits< TT >::min();
    static const long hi = std::numeric_limits< TT >::max();
};

// q is the integer code of x, in steps of range / R from the lower end
template< class T, class TT > static void code( TT q, T x, T mn, T mx, const char* l0, const char* l1, const char* l2 )
{
    const T R = T( rng< TT >::hi - rng< TT >::lo ), range = mx - mn, c = T( long( q ));
    if( std::numeric_limits< TT >::is_signed )
    {
        // symmetric range: zero is code 0
        if( x < mn || x > mx )
        {
            vp::check( x < mn ? long( q ) <= -rng< TT >::hi : long( q ) == rng< TT >::hi, l1 );
            return;
        }
        // ( negative values are rounded towards zero )
        vp::check( c * range - x * R <= range * T( 1.5 ), l0 );
        vp::check( x * R - c * range <= range * T( 1.5 ), l0 );
        vp::check( x == T( 0 ) ? long( q ) == 0 : true, l2 );
        return;
    }
    if( x < mn )
        vp::check( long( q ) == 0, l1 );
    else if( x > mx )
        vp::check( long( q ) == rng< TT >::hi, l1 );
    else
    {
        vp::check( c * range - ( x - mn ) * R <= range / T( 2 ), l0 );
        vp::check(( x - mn ) * R - c * range <= range / T( 2 ), l0 );
    }
}

template< class T > static void range( T& mn, T& mx, bool sym )
{
    mx = vp::inf_< T >( "mx" );
    mn = sym ? T( -mx ) : vp::inf_< T >( "mn" );
    vp::assume( mn < mx );
}

template< size_t M, size_t N, class T, class TT > static void quant( bool inside = false )
{
    T mn, mx;
    range( mn, mx, std::numeric_limits< TT >::is_signed );
    Matrix< M, N, T > m;
    Matrix< M, N, TT > q;
    T a[ M * N ];
    for( size_t i = 0; i < M * N; ++i )
    {
        a[i] = m.array[i] = vp::inf_< T >( "m", int( i ));
        // far outside the range the conversion to long is not defined
        const T far = sizeof( TT ) > 2 ? T( 1e15 ) : T( 1e9 );
        vp::assume(( a[i] - mn ) * T( rng< TT >::hi ) <= ( mx - mn ) * far );
        vp::assume(( a[i] - mn ) * T( rng< TT >::hi ) >= ( mx - mn ) * -far );
        if( inside )
        {
            vp::assume( a[i] >= mn );
            vp::assume( a[i] <= mx );
        }
        q.array[i] = TT( 77 );
    }
    m.quantize_to( q, mn, mx );
    for( size_t i = 0; i < M * N; ++i )
        code< T, TT >( q.array[i], a[i], mn, mx, "the code is the nearest step of the range", "values outside the range get its end code",
                       "zero keeps code zero for signed types" );
    for( size_t i = 0; i < M * N; ++i )
        vp::eq( m.array[i], a[i], "quantize_to() leaves the matrix unchanged", int( i ));
}

// codes back to values
template< size_t M, size_t N, class T, class TT > static void dequant()
{
    T mn, mx;
    const bool sg = std::numeric_limits< TT >::is_signed;
    range( mn, mx, sg );
    Matrix< M, N, TT > q;
    Matrix< M, N, T > m;
    TT k[ M * N ];
    for( size_t i = 0; i < M * N; ++i )
    {
        k[i] = q.array[i] = vp::in< TT >( "q", int( i ));
        m.array[i] = T( 77 );
    }
    const T n0 = mn, x0 = mx;
    q.dequantize( m, mn, mx );
    const T R = T( rng< TT >::hi - rng< TT >::lo );
    for( size_t i = 0; i < M * N; ++i )
    {
        T w = T( long( k[i] )) * ( mx - mn );
        if( sg && w < mn * R )
            w = mn * R; // the code below the symmetric ones
        vp::eq( sg ? m.array[i] * R : ( m.array[i] - mn ) * R, w, "dequantize() gives the value of the step", int( i ));
        vp::le( m.array[i], mx, "dequantize() stays within the range", int( i ));
        vp::le( mn, m.array[i], "dequantize() stays within the range", int( i ));
        vp::check( q.array[i] == k[i], "dequantize() leaves the codes unchanged" );
    }
    vp::eq( mn, n0, "range unchanged" );
    vp::eq( mx, x0, "range unchanged" );
}

// there and back with the range found by quantize()
template< size_t M, size_t N, class T, class TT > static void trip()
{
    Matrix< M, N, T > m, d;
    Matrix< M, N, TT > q;
    T a[ M * N ], mn, mx;
    for( size_t i = 0; i < M * N; ++i )
        a[i] = m.array[i] = vp::inf_< T >( "m", int( i ));
    mn = mx = a[0];
    for( size_t i = 1; i < M * N; ++i )
    {
        mn = a[i] < mn ? a[i] : mn;
        mx = a[i] > mx ? a[i] : mx;
    }
    vp::assume( mn < mx );
    T lo = T( 77 ), hi = T( -77 );
    m.quantize( q, lo, hi );
    vp::eq( lo, mn, "quantize() reports the least element" );
    vp::eq( hi, mx, "quantize() reports the greatest element" );
    q.dequantize( d, lo, hi );
    const T R = T( rng< TT >::hi - rng< TT >::lo );
    for( size_t i = 0; i < M * N; ++i )
    {
        vp::check(( d.array[i] - a[i] ) * R <= ( mx - mn ) / T( 2 ), "quantising and back loses at most half a step" );
        vp::check(( a[i] - d.array[i] ) * R <= ( mx - mn ) / T( 2 ), "quantising and back loses at most half a step" );
    }
    for( size_t i = 0; i < M * N; ++i )
        vp::eq( m.array[i], a[i], "quantize() leaves the matrix unchanged", int( i ));
}

// order is kept
template< class T, class TT > static void order()
{
    T mn, mx;
    range( mn, mx, std::numeric_limits< TT >::is_signed );
    Matrix< 1, 2, T > m;
    Matrix< 1, 2, TT > q;
    for( int i = 0; i < 2; ++i )
    {
        m.array[i] = vp::inf_< T >( "m", i );
        vp::assume( m.array[i] >= mn );
        vp::assume( m.array[i] <= mx );
    }
    vp::assume( m.array[0] <= m.array[1] );
    m.quantize_to( q, mn, mx );
    vp::check( long( q.array[0] ) <= long( q.array[1] ), "quantising keeps the order" );
}

template< size_t M, class T, class TT > static void scale( bool dflt = false )
{
    T mn = -1, mx = 1;
    if( !dflt )
        range( mn, mx, false );
    Vector< M, T > v;
    Vector< M, TT > r;
    T a[M];
    for( size_t i = 0; i < M; ++i )
    {
        a[i] = v.array[i] = vp::inf_< T >( "v", int( i ));
        vp::assume( a[i] >= mn );
        vp::assume( a[i] <= mx );
        r.array[i] = TT( 77 );
    }
    if( dflt )
        v.scale_to( r );
    else
        v.scale_to( r, mn, mx );
    for( size_t i = 0; i < M; ++i )
    {
        const T e = ( a[i] - mn ) * T( rng< TT >::hi ), c = T( long( r.array[i] ));
        vp::check( c * ( mx - mn ) <= e, "scale_to() maps the range onto 0 .. the greatest integer" );
        vp::check( e < ( c + T( 1 )) * ( mx - mn ), "scale_to() maps the range onto 0 .. the greatest integer" );
    }
    vu::same( v, a, "scale_to() leaves the vector unchanged" );
}

VP_REAL( q22fb ) { quant< 2, 2, float, uint8_t >(); }
VP_REAL( q31dw ) { quant< 3, 1, double, uint16_t >(); }
VP_REAL( q12fs ) { quant< 1, 2, float, int8_t >(); }
VP_REAL( q13ds ) { quant< 1, 3, double, int16_t >(); }
VP_REAL( d22fb ) { dequant< 2, 2, float, uint8_t >(); }
VP_REAL( d13dw ) { dequant< 1, 3, double, uint16_t >(); }
VP_REAL( d12fs ) { dequant< 1, 2, float, int8_t >(); }
VP_REAL( d21ds ) { dequant< 2, 1, double, int16_t >(); }
VP_REAL( t12fb ) { trip< 1, 2, float, uint8_t >(); }
VP_REAL( t31dw ) { trip< 3, 1, double, uint16_t >(); }
VP_REAL( ofb ) { order< float, uint8_t >(); }
VP_REAL( ods ) { order< double, int8_t >(); }
VP_REAL( s3fb ) { scale< 3, float, uint8_t >(); }
VP_REAL( s2dw ) { scale< 2, double, uint16_t >(); }
VP_REAL( s1fs ) { scale< 1, float, int8_t >(); }
VP_REAL( s4fbd ) { scale< 4, float, uint8_t >( true ); }
VPT_REAL( q32fb ) { quant< 3, 2, float, uint8_t >(); }
VP_REAL( t22fb ) { trip< 2, 2, float, uint8_t >(); }
VP_REAL( s9fb ) { scale< 9, float, uint8_t >(); }
VP_REAL( q12du ) { quant< 1, 2, double, uint32_t >(); }
VP_REAL( q21di ) { quant< 2, 1, double, int32_t >(); }
VP_REAL( d12du ) { dequant< 1, 2, double, uint32_t >(); }
VP_REAL( d21di ) { dequant< 2, 1, double, int32_t >(); }
VP_REAL( t21du ) { trip< 2, 1, double, uint32_t >(); }
VP_REAL( odu ) { order< double, uint32_t >(); }
VP_REAL( s2di ) { scale< 2, double, int32_t >(); }
VP_REAL( q54fb ) { quant< 5, 4, float, uint8_t >( true ); }
VP_REAL( d45db ) { dequant< 4, 5, double, uint8_t >(); }
VPT_REAL( q78db ) { quant< 7, 8, double, uint8_t >( true ); }
VPT_REAL( q23fb ) { quant< 2, 3, float, uint8_t >(); }
VP_REAL( d32fb ) { dequant< 3, 2, float, uint8_t >(); }
VPT_REAL( d33fb ) { dequant< 3, 3, float, uint8_t >(); }
