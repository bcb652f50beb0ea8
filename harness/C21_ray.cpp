// ray - sphere intersection: the ray is origin + s * direction / |direction|, s >= 0
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/intersection.hpp>
using namespace vmml;

// Every configuration is written as  center = origin + p u + a x u  with a unit u: p is the parameter of the point of the
// ray's line nearest to the center and a x u the offset from there.  The radius is sqrt( |a x u|^2 + h^2 ) when the line
// meets the sphere ( half chord h ), and sqrt( |a x u|^2 - g^2 ), g > 0, when it does not.
template< class T > static bool ray( bool meets, T (&o)[3], T (&u)[3], T (&c)[3], T& p, T& h, T& r, T& t,
                                      bool again = false )
{
    u[0] = vp::inf_< T >( "u", 0 );
    u[1] = vp::inf_< T >( "u", 1 );
    const T z = T( 1 ) - u[0] * u[0] - u[1] * u[1];
    vp::assume( z >= T( 0 ));
    u[2] = std::sqrt( z );
    if( vp_bool( "neg", -1 ))
        u[2] = -u[2];
    T a[3], w[3];
    for( int i = 0; i < 3; ++i )
    {
        o[i] = vp::inf_< T >( "o", i );
        a[i] = vp::inf_< T >( "a", i );
    }
    p = vp::inf_< T >( "p" );
    h = vp::inf_< T >( "h" );
    const T k = vp::inf_< T >( "k" ); // the length of the direction does not matter
    vp::assume( k > T( 0 ));
    w[0] = a[1] * u[2] - a[2] * u[1];
    w[1] = a[2] * u[0] - a[0] * u[2];
    w[2] = a[0] * u[1] - a[1] * u[0];
    const T ww = w[0] * w[0] + w[1] * w[1] + w[2] * w[2];
    if( meets )
    {
        vp::assume( h >= T( 0 ));
        r = std::sqrt( ww + h * h );
    }
    else
    {
        vp::assume( h > T( 0 ));
        const T rr = ww - h * h;
        vp::assume( rr >= T( 0 ));
        r = std::sqrt( rr );
    }
    for( int i = 0; i < 3; ++i )
        c[i] = o[i] + p * u[i] + w[i];
    const Vector< 3, T > org( o[0], o[1], o[2] ), dir( k * u[0], k * u[1], k * u[2] );
    const Vector< 4, T > sph( c[0], c[1], c[2], r );
    const Intersection< T > x( org, dir );
    t = T( -1 );
    if( again )
    {
        // the same ray was tested against another sphere before, which it hits
        T q = T( 0 );
        x.test_sphere( Vector< 4, T >( o[0] + T( 2 ) * u[0], o[1] + T( 2 ) * u[1], o[2] + T( 2 ) * u[2], T( 1 )), q );
        vp::eq( q, T( 1 ), "a sphere two units ahead" );
    }
    const bool hit = x.test_sphere( sph, t );
    const T e[4] = { c[0], c[1], c[2], r };
    vu::same( sph, e, "sphere unchanged" );
    return hit;
}

template< class T > static void hit( bool again = false )
{
    T o[3], u[3], c[3], p, h, r, t;
    const bool x = ray( true, o, u, c, p, h, r, t, again );
    // the line enters at p - h and leaves at p + h
    const bool in = p * p <= h * h; // the origin is in the sphere
    vp::check( x == ( in | ( p >= T( 0 ))), "test_sphere() exactly when the ray meets the sphere" );
    if( !x )
    {
        vp::eq( t, T( -1 ), "without a hit the parameter is not touched" );
        return;
    }
    if( in )
        vp::eq( t, p + h, "from inside: the way out" );
    else
        vp::eq( t, p - h, "from outside: the nearer intersection" );
    vp::check( t >= T( 0 ), "the intersection lies ahead" );
    T e = T( 0 );
    for( int i = 0; i < 3; ++i )
    {
        const T d = o[i] + t * u[i] - c[i];
        e += d * d;
    }
    vp::eq( e, r * r, "the intersection lies on the sphere" );
}
template< class T > static void miss()
{
    T o[3], u[3], c[3], p, h, r, t;
    vp::check( !ray( false, o, u, c, p, h, r, t ), "no intersection when the line misses the sphere" );
    vp::eq( t, T( -1 ), "without a hit the parameter is not touched" );
}

VP_REAL( hitf ) { hit< float >(); }
VP_REAL( hitd ) { hit< double >(); }
VP_REAL( hit2f ) { hit< float >( true ); }
VP_REAL( missf ) { miss< float >(); }
VP_REAL( missd ) { miss< double >(); }
