// low pass filter: exponentially weighted combination of the last M values, the newest first
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/lowpass_filter.hpp>
using namespace vmml;

template< class T > static T one( const char* n, int i ) { return vp::inf_< T >( n, i ); }

// after each of `steps` additions
template< size_t M, int STEPS, class T > static void history()
{
    const float f = vp::inf_< float >( "f" );
    LowpassFilter< M, T > lp( f );
    T x[STEPS];
    for( int n = 0; n < STEPS; ++n )
    {
        x[n] = one< T >( "x", n );
        const T got = lp.add( x[n] );
        T e = x[n];
        double w = f;
        for( int k = 1; k < int( M ) && k <= n; ++k, w *= f )
            e = T( e * ( 1 - w ) + x[ n - k ] * w );
        vp::eq( got, e, "add() returns the filtered value of the last M values", n );
        vp::eq( lp.get(), e, "get()", n );
        vp::eq( *lp, e, "operator*", n );
        vp::eq( *( lp.operator->( )), e, "operator->", n );
    }
}
// with a smooth factor within [0, 1] the output stays between the smallest and the largest of the last M values
template< size_t M, int STEPS, class T > static void hull()
{
    const float f = vp::inf_< float >( "f" );
    vp::assume( f >= 0.f );
    vp::assume( f <= 1.f );
    LowpassFilter< M, T > lp( f );
    const T lo = one< T >( "lo", -1 ), hi = one< T >( "hi", -1 );
    vp::assume( lo <= hi );
    T e = T( 0 );
    for( int n = 0; n < STEPS; ++n )
    {
        const T x = one< T >( "x", n );
        if( n >= STEPS - int( M ))
        {
            vp::assume( x >= lo );
            vp::assume( x <= hi );
        }
        e = lp.add( x );
    }
    vp::check(( e >= lo ) & ( e <= hi ), "the output stays in the range of the last M values" );
}
template< size_t M, class T > static void constant()
{
    const float f = vp::inf_< float >( "f" );
    LowpassFilter< M, T > lp( f );
    const T x = one< T >( "x", -1 );
    for( int n = 0; n < int( M ) + 1; ++n )
        vp::eq( lp.add( x ), x, "a constant input passes unchanged", n );
}
template< size_t M, class T > static void factor()
{
    const float f = vp::inf_< float >( "f" ), g = vp::inf_< float >( "g" );
    LowpassFilter< M, T > a( f ), b( g );
    T r = T( 0 ), s = T( 0 );
    for( int n = 0; n < 4; ++n )
    {
        const T x = one< T >( "x", n );
        if( n == 2 )
            a.set_smooth_factor( g );
        r = a.add( x );
        s = b.add( x );
    }
    vp::eq( r, s, "set_smooth_factor() holds for the values that follow, and no other state depends on it" );
}
// any sequence of additions, each with its own smooth factor, also with the filtered value as the new value
template< size_t M, int STEPS, class T > static void changing()
{
    LowpassFilter< M, T > lp( vp::inf_< float >( "f", -1 ));
    T x[STEPS];
    for( int n = 0; n < STEPS; ++n )
    {
        const float f = vp::inf_< float >( "f", n );
        lp.set_smooth_factor( f );
        const bool feed = n == STEPS - 1;
        x[n] = feed ? *lp : one< T >( "x", n );
        const T got = lp.add( feed ? *lp : x[n] );
        T e = x[n];
        double w = f;
        for( int k = 1; k < int( M ) && k <= n; ++k, w *= f )
            e = T( e * ( 1 - w ) + x[ n - k ] * w );
        vp::eq( got, e, "add() after set_smooth_factor() uses that factor and the last M values", n );
        lp.set_smooth_factor( vp::inf_< float >( "g", n ));
        vp::eq( *lp, e, "set_smooth_factor() leaves the filtered value", n );
    }
}
// two filters do not share anything
template< size_t M, class T > static void independent()
{
    const float f = vp::inf_< float >( "f" ), g = vp::inf_< float >( "g" );
    LowpassFilter< M, T > a( f ), b( g );
    const T x = one< T >( "x", 0 ), y = one< T >( "y", 0 ), z = one< T >( "z", 0 );
    a.add( x );
    b.add( y );
    LowpassFilter< M, T > c( a );
    c.add( y );
    a.add( z );
    vp::eq( *b, y, "another filter is unaffected" );
    vp::eq( *a, M == 1 ? z : T( z * ( 1 - double( f )) + x * double( f )), "a copy does not share the history" );
    vp::eq( *c, M == 1 ? y : T( y * ( 1 - double( f )) + x * double( f )), "a copy continues the history" );
}
template< size_t M > static void vectors()
{
    typedef Vector< 3, float > V;
    const float f = vp::inf_< float >( "f" );
    LowpassFilter< M, V > lp( f );
    float x[4][3];
    for( int n = 0; n < 4; ++n )
    {
        V v;
        vu::vec( v, x[n], n == 0 ? "a" : n == 1 ? "b" : n == 2 ? "c" : "d" );
        const V got = lp.add( v );
        float e[3];
        for( int i = 0; i < 3; ++i )
            e[i] = x[n][i];
        double w = f;
        for( int k = 1; k < int( M ) && k <= n; ++k, w *= f )
            for( int i = 0; i < 3; ++i )
                e[i] = float( e[i] * ( 1 - w ) + x[ n - k ][i] * w );
        vu::same( got, e, "vectors are filtered component-wise" );
        vu::same( *lp, e, "vectors are filtered component-wise" );
    }
}

VP_REAL( h1f ) { history< 1, 3, float >(); }
VP_REAL( h2d ) { history< 2, 4, double >(); }
VP_REAL( h3f ) { history< 3, 5, float >(); }
VP_REAL( h5d ) { history< 5, 7, double >(); }
VP_REAL( h3d ) { history< 3, 6, double >(); }
VP_REAL( hull2d ) { hull< 2, 3, double >(); }
VP_REAL( hull3d ) { hull< 3, 4, double >(); }
VP_REAL( const4d ) { constant< 4, double >(); }
VP_REAL( const3f ) { constant< 3, float >(); }
VP_REAL( factor3d ) { factor< 3, double >(); }
VP_REAL( chg3d ) { changing< 3, 5, double >(); }
VP_REAL( chg2f ) { changing< 2, 4, float >(); }
VP_REAL( chg4d ) { changing< 4, 4, double >(); }
VP_REAL( ind3d ) { independent< 3, double >(); }
VP_REAL( vec3 ) { vectors< 3 >(); }

// integers: every step of the mean is truncated once
template< size_t M > static void integers( float f )
{
    LowpassFilter< M, int > lp( f );
    int x[4];
    for( int n = 0; n < 4; ++n )
    {
        x[n] = int( vp_i32( "x", n ));
        vp::assume( x[n] <= 1000 && x[n] >= -1000 );
        const int got = lp.add( x[n] );
        int e = x[n];
        double w = f;
        for( int k = 1; k < int( M ) && k <= n; ++k, w *= f )
            e = int( e * ( 1 - w ) + x[ n - k ] * w );
        vp::eq( got, e, "integers: each step of the mean is truncated", n );
        vp::eq( *lp, e, "integers: get() is the last result", n );
    }
}

VP_FP( int2 ) { integers< 2 >( .5f ); }
VP_FP( int3 ) { integers< 3 >( .5f ); }
VP_FP( int3q ) { integers< 3 >( .25f ); }
VP_FP( int3o ) { integers< 3 >( 1.f ); }
VP_FP( int3z ) { integers< 3 >( 0.f ); }
