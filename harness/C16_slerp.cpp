// spherical interpolation between unit quaternions
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/quaternion.hpp>
using namespace vmml;

template< class T > static void unit( Quaternion< T >& q, T (&u)[4], const char* n, int k )
{
    T s = T( 1 );
    for( int i = 0; i < 4; ++i )
        if( i != k )
        {
            u[i] = vp::inf_< T >( n, i );
            s -= u[i] * u[i];
        }
    vp::assume( s >= T( 0 ));
    u[k] = std::sqrt( s );
    for( int i = 0; i < 4; ++i )
        q.array[i] = u[i];
}

// along the shorter great arc, with constant speed
template< class T > static void arc( bool narrow )
{
    Quaternion< T > p, q;
    T a[4], b[4];
    unit( p, a, "p", 3 );
    unit( q, b, "q", 3 );
    const T t = vp::inf_< T >( "t" );
    T c = a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3];
    const T sg = c < T( 0 ) ? T( -1 ) : T( 1 );
    c *= sg;
    if( narrow )
    {
        vp::assume( c < T( 0.9999 ));
        vp::assume( T( 1 ) - c * c > T( 0 )); // follows
    }
    // a threshold of 2 takes any two operands for nearly equal
    const T eps = narrow ? T( 1e-13 ) : T( 2 );
    vp::assume( c <= T( 1 )); // Cauchy-Schwarz
    const Quaternion< T > r = narrow ? Quaternion< T >::slerp( t, p, q ) : Quaternion< T >::slerp( t, p, q, eps );
    if( narrow )
    {
        const T s = std::sqrt( T( 1 ) - c * c );
        const T th = std::atan2( s, c );
        const T st = std::sin( t * th ), s1 = std::sin( th - t * th );
        for( int i = 0; i < 4; ++i )
            vp::eq( r.array[i] * s, s1 * a[i] + st * sg * b[i], "slerp( t, p, q ) runs along the shorter great arc", i );
        vp::eq( r.array[0] * r.array[0] + r.array[1] * r.array[1] + r.array[2] * r.array[2] + r.array[3] * r.array[3],
                T( 1 ), "slerp( t, p, q ) has unit length" );
        vp::eq( r.array[0] * a[0] + r.array[1] * a[1] + r.array[2] * a[2] + r.array[3] * a[3], T( std::cos( t * th )),
                "the angle to p grows linearly with t" );
    }
    else
    {
        // operands nearly equal within the threshold: the normalised chord
        T e[4], n = T( 0 );
        for( int i = 0; i < 4; ++i )
        {
            e[i] = ( T( 1 ) - t ) * a[i] + t * sg * b[i];
            n += e[i] * e[i];
        }
        vp::assume( n > T( 0 ));
        const T l = std::sqrt( n );
        for( int i = 0; i < 4; ++i )
            vp::eq( r.array[i] * l, e[i], "slerp of nearly equal quaternions is the normalised chord", i );
    }
    for( int i = 0; i < 4; ++i )
    {
        vp::eq( p.array[i], a[i], "operand unchanged", i );
        vp::eq( q.array[i], b[i], "operand unchanged", i );
    }
}

template< class T > static void ends( bool end )
{
    Quaternion< T > p, q;
    T a[4], b[4];
    unit( p, a, "p", 3 );
    unit( q, b, "q", 3 );
    T c = a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3];
    const T sg = c < T( 0 ) ? T( -1 ) : T( 1 );
    c *= sg;
    vp::assume( c <= T( 0.9999 ));
    vp::assume( T( 1 ) - c * c > T( 0 )); // follows
    const Quaternion< T > r = Quaternion< T >::slerp( end ? T( 1 ) : T( 0 ), p, q );
    for( int i = 0; i < 4; ++i )
        vp::eq( r.array[i], end ? sg * b[i] : a[i], end ? "slerp( 1, p, q ) is q or -q" : "slerp( 0, p, q ) is p", i );
}

// operands of any length are normalised first
template< class T > static void lengths()
{
    Quaternion< T > p, q;
    T a[4], b[4];
    unit( p, a, "p", 3 );
    unit( q, b, "q", 3 );
    T c = a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3];
    vp::assume( c >= T( 0 ));
    vp::assume( c <= T( 0.9999 ));
    vp::assume( T( 1 ) - c * c > T( 0 )); // follows
    const T t = vp::inf_< T >( "t" ), f = vp::inf_< T >( "f" ), g = vp::inf_< T >( "g" );
    vp::assume( f > T( 0 ));
    vp::assume( g > T( 0 ));
    const Quaternion< T > r = Quaternion< T >::slerp( t, p, q );
    for( int i = 0; i < 4; ++i )
    {
        p.array[i] = f * a[i];
        q.array[i] = g * b[i];
    }
    const Quaternion< T > s = Quaternion< T >::slerp( t, p, q );
    for( int i = 0; i < 4; ++i )
        vp::eq( s.array[i], r.array[i], "the lengths of the operands do not matter", i );
}

// between a rotation and itself there is nothing to interpolate, whatever the threshold
template< class T > static void same_rotation()
{
    Quaternion< T > p, q;
    T a[4];
    unit( p, a, "p", 3 );
    const bool neg = vp_bool( "neg", -1 ), zero = vp_bool( "zero", -1 );
    for( int i = 0; i < 4; ++i )
        q.array[i] = neg ? -a[i] : a[i];
    const T t = vp::inf_< T >( "t" );
    const Quaternion< T > r = zero ? Quaternion< T >::slerp( t, p, q, T( 0 )) : Quaternion< T >::slerp( t, p, q );
    for( int i = 0; i < 4; ++i )
        vp::eq( r.array[i], a[i], "slerp between p and itself is p", i );
}

VP_REAL( samef ) { same_rotation< float >(); }
VP_REAL( samed ) { same_rotation< double >(); }
VP_REAL( arcf ) { arc< float >( true ); }
VP_REAL( arcd ) { arc< double >( true ); }
VP_REAL( chordf ) { arc< float >( false ); }
VP_REAL( chordd ) { arc< double >( false ); }
VP_REAL( begf ) { ends< float >( false ); }
VP_REAL( begd ) { ends< double >( false ); }
VP_REAL( endf ) { ends< float >( true ); }
VP_REAL( endd ) { ends< double >( true ); }
VP_REAL( lenf ) { lengths< float >(); }
VP_REAL( lend ) { lengths< double >(); }

// halfway between operands that have moved a little since the previous call
template< class T > static void moved()
{
    T b[2][2];
    for( int k = 0; k < 2; ++k )
    {
        b[k][0] = vp::inf_< T >( k ? "x" : "y" );
        vp::assume( b[k][0] >= T( 0.3 ));
        vp::assume( b[k][0] <= T( 0.9 ));
        b[k][1] = std::sqrt( T( 1 ) - b[k][0] * b[k][0] );
    }
    const T d = b[0][0] - b[1][0];
    vp::assume( d >= T( 0.0004 ));
    vp::assume( d <= T( 0.0009 ));
    const Quaternion< T > p( T( 0 ), T( 0 ), T( 0 ), T( 1 )), q( b[0][1], T( 0 ), T( 0 ), b[0][0] ), r( b[1][1], T( 0 ), T( 0 ), b[1][0] );
    Quaternion< T >::slerp( T( 0.5 ), p, q );
    const Quaternion< T > s = Quaternion< T >::slerp( T( 0.5 ), p, r );
    vp::eq( s.array[0] * s.array[0] + s.array[1] * s.array[1] + s.array[2] * s.array[2] + s.array[3] * s.array[3],
            T( 1 ), "slerp( t, p, q ) has unit length" );
    vp::eq( s.array[0] * b[1][1] + s.array[3] * b[1][0], s.array[3], "halfway is as far from p as from q" );
}
VP_REAL( movedd ) { moved< double >(); }
