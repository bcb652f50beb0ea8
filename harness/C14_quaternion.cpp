// quaternion algebra: q = x i + y j + z k + w, stored as ( x, y, z, w )
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/quaternion.hpp>
using namespace vmml;

template< class T > static void quat( Quaternion< T >& q, T (&a)[4], const char* n )
{
    for( size_t i = 0; i < 4; ++i )
        q.array[i] = a[i] = vp::inf_< T >( n, int( i ));
}
template< class T > static void sameq( const Quaternion< T >& q, T x, T y, T z, T w, const char* l )
{
    vp::eq( q.array[0], x, l, 0 );
    vp::eq( q.array[1], y, l, 1 );
    vp::eq( q.array[2], z, l, 2 );
    vp::eq( q.array[3], w, l, 3 );
}
template< class T > static void samea( const Quaternion< T >& q, const T (&a)[4], const char* l )
{
    sameq( q, a[0], a[1], a[2], a[3], l );
}
// Hamilton's product
template< class T > static void ham( const T (&p)[4], const T (&q)[4], T (&r)[4] )
{
    r[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
    r[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
    r[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
    r[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
}

template< class T > static void products()
{
    Quaternion< T > p, q, r;
    T a[4], b[4], e[4];
    quat( p, a, "p" );
    quat( q, b, "q" );
    ham( a, b, e );
    samea( p * q, e, "p * q is Hamilton's product" );
    r = p;
    r *= q;
    samea( r, e, "p *= q is Hamilton's product" );
    samea( p, a, "left operand unchanged" );
    samea( q, b, "right operand unchanged" );
    ham( a, a, e );
    samea( p * p, e, "p * p" );
    r = p;
    r *= r;
    samea( r, e, "p *= p" );
}

template< class T > static void sums()
{
    Quaternion< T > p, q, r;
    T a[4], b[4];
    quat( p, a, "p" );
    quat( q, b, "q" );
    sameq( p + q, T( a[0] + b[0] ), T( a[1] + b[1] ), T( a[2] + b[2] ), T( a[3] + b[3] ), "p + q" );
    sameq( p - q, T( a[0] - b[0] ), T( a[1] - b[1] ), T( a[2] - b[2] ), T( a[3] - b[3] ), "p - q" );
    r = p;
    r += q;
    sameq( r, T( a[0] + b[0] ), T( a[1] + b[1] ), T( a[2] + b[2] ), T( a[3] + b[3] ), "p += q" );
    r = p;
    r -= q;
    sameq( r, T( a[0] - b[0] ), T( a[1] - b[1] ), T( a[2] - b[2] ), T( a[3] - b[3] ), "p -= q" );
    sameq( -p, T( -a[0] ), T( -a[1] ), T( -a[2] ), T( -a[3] ), "-p" );
    r = p;
    r += r;
    sameq( r, T( a[0] + a[0] ), T( a[1] + a[1] ), T( a[2] + a[2] ), T( a[3] + a[3] ), "p += p" );
    r = p;
    r -= r;
    sameq( r, T( 0 ), T( 0 ), T( 0 ), T( 0 ), "p -= p" );
    vp::eq( p.dot( q ), T( a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3] ), "p.dot( q )" );
    vp::eq( Quaternion< T >::dot( p, q ), T( a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3] ), "dot( p, q )" );
    samea( p, a, "left operand unchanged" );
    samea( q, b, "right operand unchanged" );
    const Vector< 3, T > c = p.cross( q );
    vp::eq( c.array[0], T( a[1] * b[2] - a[2] * b[1] ), "p.cross( q )", 0 );
    vp::eq( c.array[1], T( a[2] * b[0] - a[0] * b[2] ), "p.cross( q )", 1 );
    vp::eq( c.array[2], T( a[0] * b[1] - a[1] * b[0] ), "p.cross( q )", 2 );
}

template< class T > static void scalars()
{
    Quaternion< T > p, r;
    T a[4];
    quat( p, a, "p" );
    const T s = vp::inf_< T >( "s" );
    sameq( p * s, T( a[0] * s ), T( a[1] * s ), T( a[2] * s ), T( a[3] * s ), "p * s" );
    r = p;
    r *= s;
    sameq( r, T( a[0] * s ), T( a[1] * s ), T( a[2] * s ), T( a[3] * s ), "p *= s" );
    vp::assume( s != T( 0 ));
    sameq( p / s, T( a[0] / s ), T( a[1] / s ), T( a[2] / s ), T( a[3] / s ), "p / s" );
    r = p;
    r /= s;
    sameq( r, T( a[0] / s ), T( a[1] / s ), T( a[2] / s ), T( a[3] / s ), "p /= s" );
    samea( p, a, "operand unchanged" );
}

// the factor is a component of the quaternion
template< class T > static void alias()
{
    Quaternion< T > p;
    T a[4];
    quat( p, a, "p" );
    const uint64_t how = vp_pick( "op", -1, 4 ), k = vp_pick( "k", -1, 4 );
    const T s = a[k];
    T& r = k == 0 ? p.x() : k == 1 ? p.y() : k == 2 ? p.z() : p.w();
    if( how >= 2 ) vp::assume( s != T( 0 ));
    if( how < 2 )
        p *= r;
    else
        p /= r;
    if( how < 2 )
        sameq( p, T( a[0] * s ), T( a[1] * s ), T( a[2] * s ), T( a[3] * s ), "p *= component" );
    else
        sameq( p, T( a[0] / s ), T( a[1] / s ), T( a[2] / s ), T( a[3] / s ), "p /= component" );
}

template< class T > static void vectors()
{
    Quaternion< T > p, r;
    Vector< 3, T > v;
    T a[4], b[3], e[4];
    quat( p, a, "p" );
    vu::vec( v, b, "v" );
    const T q[4] = { b[0], b[1], b[2], T( 0 ) };
    sameq( p + v, T( a[0] + b[0] ), T( a[1] + b[1] ), T( a[2] + b[2] ), a[3], "p + v" );
    sameq( p - v, T( a[0] - b[0] ), T( a[1] - b[1] ), T( a[2] - b[2] ), a[3], "p - v" );
    ham( a, q, e );
    samea( p * v, e, "p * v is the product with ( v, 0 )" );
    r = p;
    r += v;
    sameq( r, T( a[0] + b[0] ), T( a[1] + b[1] ), T( a[2] + b[2] ), a[3], "p += v" );
    r = p;
    r -= v;
    sameq( r, T( a[0] - b[0] ), T( a[1] - b[1] ), T( a[2] - b[2] ), a[3], "p -= v" );
    r = p;
    r *= v;
    samea( r, e, "p *= v is the product with ( v, 0 )" );
    samea( p, a, "operand unchanged" );
    vu::same( v, b, "vector unchanged" );
}

template< class T > static void unary()
{
    Quaternion< T > p, r;
    T a[4];
    quat( p, a, "p" );
    sameq( p.get_conjugate(), T( -a[0] ), T( -a[1] ), T( -a[2] ), a[3], "get_conjugate()" );
    r = p;
    r.conjugate();
    sameq( r, T( -a[0] ), T( -a[1] ), T( -a[2] ), a[3], "conjugate()" );
    const T n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
    vp::eq( p.squared_abs(), n, "squared_abs()" );
    const T l = p.abs();
    vp::le( T( 0 ), l, "abs() >= 0" );
    vp::eq( l * l, n, "abs() squared is the sum of squares" );
    samea( p, a, "operand unchanged" );
    r = p;
    r.normalize();
    const Quaternion< T > s = p.get_normalized();
    samea( p, a, "get_normalized() leaves the quaternion unchanged" );
    for( size_t i = 0; i < 4; ++i )
    {
        vp::eq( r.array[i] * l, a[i], "normalize() divides by the length", int( i ));
        vp::eq( s.array[i] * l, a[i], "get_normalized() divides by the length", int( i ));
    }
    vp::assume( n != T( 0 ));
    const Quaternion< T > v = p.inverse();
    T b[4], e[4];
    for( size_t i = 0; i < 4; ++i )
        b[i] = v.array[i];
    samea( p, a, "inverse() leaves the quaternion unchanged" );
    ham( a, b, e );
    for( size_t i = 0; i < 4; ++i )
        vp::eq( e[i], T( i == 3 ? 1 : 0 ), "q * q.inverse() is the identity", int( i ));
    ham( b, a, e );
    for( size_t i = 0; i < 4; ++i )
        vp::eq( e[i], T( i == 3 ? 1 : 0 ), "q.inverse() * q is the identity", int( i ));
    T m = T( 0 );
    for( size_t i = 0; i < 4; ++i )
        m += r.array[i] * r.array[i];
    vp::eq( m, T( 1 ), "normalize() yields unit length" );
}

// division by a scalar throws exactly for zeros and then changes nothing
template< class T > static void zeros()
{
    Quaternion< T > p, r;
    T a[4];
    quat( p, a, "p" );
    const T s = vp::in< T >( "s" );
    bool thrown;
    r = p;
    VP_THROWS( thrown, r /= s );
    vp::check( thrown == ( s == T( 0 )), "p /= s throws exactly for zero" );
    if( thrown )
        samea( r, a, "a failed division changes nothing" );
    r = p;
    VP_THROWS( thrown, r = p / s );
    vp::check( thrown == ( s == T( 0 )), "p / s throws exactly for zero" );
    if( thrown )
        samea( r, a, "a failed division changes nothing" );
    samea( p, a, "operand unchanged" );
}

template< class T > static void zeronorm()
{
    Quaternion< T > p( 0, 0, 0, 0 );
    const T l = p.normalize();
    const Quaternion< T > n = Quaternion< T >( 0, 0, 0, 0 ).get_normalized();
    vp::eq( l, T( 0 ), "normalize() of zero" );
    sameq( p, T( 0 ), T( 0 ), T( 0 ), T( 0 ), "normalize() leaves zero" );
    sameq( n, T( 0 ), T( 0 ), T( 0 ), T( 0 ), "get_normalized() of zero" );
}

template< class T > static void makers()
{
    T a[4];
    Vector< 3, T > v;
    T b[3];
    vu::vecany( v, b, "v" );
    for( size_t i = 0; i < 4; ++i )
        a[i] = vp::in< T >( "a", int( i ));
    samea( Quaternion< T >( a[0], a[1], a[2], a[3] ), a, "Quaternion( x, y, z, w )" );
    sameq( Quaternion< T >( v, a[3] ), b[0], b[1], b[2], a[3], "Quaternion( xyz, w )" );
    sameq( Quaternion< T >( v ), b[0], b[1], b[2], T( 0 ), "Quaternion( xyz )" );
    sameq( Quaternion< T >(), T( 0 ), T( 0 ), T( 0 ), T( 1 ), "Quaternion() is the identity" );
    Quaternion< T > q, r;
    q.set( a[0], a[1], a[2], a[3] );
    samea( q, a, "set( x, y, z, w )" );
    r = q;
    samea( r, a, "assignment" );
    r.set( v, a[3] );
    sameq( r, b[0], b[1], b[2], a[3], "set( xyz, w )" );
    Vector< 4, T > f;
    T g[4];
    vu::vecany( f, g, "f" );
    r = f;
    samea( r, g, "assignment from a Vector4" );
    r.identity();
    sameq( r, T( 0 ), T( 0 ), T( 0 ), T( 1 ), "identity()" );
    r.zero();
    sameq( r, T( 0 ), T( 0 ), T( 0 ), T( 0 ), "zero()" );
    sameq( Quaternion< T >::IDENTITY, T( 0 ), T( 0 ), T( 0 ), T( 1 ), "IDENTITY" );
    sameq( Quaternion< T >::QUATERI, T( 1 ), T( 0 ), T( 0 ), T( 0 ), "QUATERI" );
    sameq( Quaternion< T >::QUATERJ, T( 0 ), T( 1 ), T( 0 ), T( 0 ), "QUATERJ" );
    sameq( Quaternion< T >::QUATERK, T( 0 ), T( 0 ), T( 1 ), T( 0 ), "QUATERK" );
}

VP_REAL( prodf ) { products< float >(); }
VP_REAL( prodd ) { products< double >(); }
VP_REAL( aliasf ) { alias< float >(); }
VP_REAL( aliasd ) { alias< double >(); }
VP_REAL( sumf ) { sums< float >(); }
VP_REAL( sumd ) { sums< double >(); }
VP_REAL( scalf ) { scalars< float >(); }
VP_REAL( scald ) { scalars< double >(); }
VP_REAL( vecf ) { vectors< float >(); }
VP_REAL( vecd ) { vectors< double >(); }
VP_REAL( unaryf ) { unary< float >(); }
VP_REAL( unaryd ) { unary< double >(); }
VP_FP( makef ) { makers< float >(); }
VP_FP( maked ) { makers< double >(); }
VP_FP( zerof ) { zeros< float >(); }
VP_FP( zerod ) { zeros< double >(); }
VP_FP( znormf ) { zeronorm< float >(); }
VP_FP( znormd ) { zeronorm< double >(); }

// infinities, NaN and signed zeros (the product saves multiplications by adding first: it is not stated for these)
template< class T > static void special()
{
    Quaternion< T > p, q, r;
    T a[4], b[4];
    quat( p, a, "p" );
    quat( q, b, "q" );
    const T s = vp::inf_< T >( "s" );
    sameq( p * s, T( a[0] * s ), T( a[1] * s ), T( a[2] * s ), T( a[3] * s ), "p * s" );
    r = p;
    r *= s;
    sameq( r, T( a[0] * s ), T( a[1] * s ), T( a[2] * s ), T( a[3] * s ), "p *= s" );
    sameq( p + q, T( a[0] + b[0] ), T( a[1] + b[1] ), T( a[2] + b[2] ), T( a[3] + b[3] ), "p + q" );
    sameq( p - q, T( a[0] - b[0] ), T( a[1] - b[1] ), T( a[2] - b[2] ), T( a[3] - b[3] ), "p - q" );
    sameq( -p, T( -a[0] ), T( -a[1] ), T( -a[2] ), T( -a[3] ), "-p" );
    vp::eq( p.dot( q ), T( a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3] ), "p.dot( q )" );
}
VP_FP( sp_opsf ) { vp::Special on; special< float >(); }
VP_FP( sp_opsd ) { vp::Special on; special< double >(); }
