// vector geometry: dot, cross, lengths, distances, normalize, triangle normals, rotation about an axis
//@ variant release -DNDEBUG
#include "vu.h"
using namespace vmml;

template< size_t M, class T > static void dots()
{
    Vector< M, T > v, w;
    T a[M], b[M];
    vu::vecmod( v, a, "a" );
    vu::vecmod( w, b, "b" );
    T d = T( 0 );
    for( size_t i = 0; i < M; ++i )
        d += a[i] * b[i];
    vp::eq( v.dot( w ), d, "v.dot( w )" );
    vp::eq( vmml::dot( v, w ), d, "dot( v, w )" );
    vu::same( v, a, "operand unchanged" );
    vu::same( w, b, "operand unchanged" );
}

template< class T > static void crosses()
{
    Vector< 3, T > v, w, r;
    T a[3], b[3];
    vu::vecmod( v, a, "a" );
    vu::vecmod( w, b, "b" );
    const T e[3] = { T( a[1] * b[2] - a[2] * b[1] ), T( a[2] * b[0] - a[0] * b[2] ), T( a[0] * b[1] - a[1] * b[0] ) };
    r.cross( v, w );
    vu::same( r, e, "r.cross( v, w )" );
    vu::same( v.cross( w ), e, "v.cross( w )" );
    vu::same( vmml::cross< 3 >( v, w ), e, "cross( v, w )" );
    vu::same( v, a, "operand unchanged" );
    vu::same( w, b, "operand unchanged" );
    r = v;
    r.cross( r, w );
    vu::same( r, e, "r.cross( r, w )" );
    r = w;
    r.cross( v, r );
    vu::same( r, e, "r.cross( v, r )" );
    vu::same( v, a, "operand unchanged" );
    vu::same( w, b, "operand unchanged" );
}

template< size_t M, class T > static void lengths()
{
    Vector< M, T > v, w;
    T a[M], b[M];
    vu::vec( v, a, "a" );
    vu::vec( w, b, "b" );
    T q = T( 0 ), d = T( 0 );
    for( size_t i = 0; i < M; ++i )
    {
        q += a[i] * a[i];
        d += ( a[i] - b[i] ) * ( a[i] - b[i] );
    }
    vp::eq( v.squared_length(), q, "squared_length()" );
    vp::eq( v.squared_distance( w ), d, "squared_distance()" );
    const T l = v.length(), s = v.distance( w );
    vp::le( T( 0 ), l, "length() >= 0" );
    vp::le( T( 0 ), s, "distance() >= 0" );
    vp::eq( l * l, q, "length() squared is the sum of squares" );
    vp::eq( s * s, d, "distance() squared is the sum of squared differences" );
    vu::same( v, a, "operand unchanged" );
    vu::same( w, b, "operand unchanged" );
}

template< size_t M, class T > static void norms()
{
    Vector< M, T > v;
    T a[M];
    vu::vec( v, a, "a" );
    T q = T( 0 );
    for( size_t i = 0; i < M; ++i )
        q += a[i] * a[i];
    const Vector< M, T > n = vmml::normalize( v );
    vu::same( v, a, "normalize( v ) leaves v unchanged" );
    const T l = v.normalize();
    vp::le( T( 0 ), l, "normalize() returns a length >= 0" );
    vp::eq( l * l, q, "normalize() returns the former length" );
    T s = T( 0 );
    for( size_t i = 0; i < M; ++i )
    {
        vp::eq( v.array[i] * l, a[i], "the direction is kept", int( i ));
        vp::eq( n.array[i], v.array[i], "normalize( v ) == v.normalize()", int( i ));
        s += v.array[i] * v.array[i];
    }
    vp::eq( s, T( q == T( 0 ) ? 0 : 1 ), "the result has unit length, the zero vector stays zero" );
}

template< class T > static void normals()
{
    Vector< 3, T > p, q, r, n;
    T a[3], b[3], c[3];
    vu::vec( p, a, "a" );
    vu::vec( q, b, "b" );
    vu::vec( r, c, "c" );
    const T u[3] = { b[0] - a[0], b[1] - a[1], b[2] - a[2] }, w[3] = { c[0] - a[0], c[1] - a[1], c[2] - a[2] };
    const T e[3] = { u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0] };
    const T q2 = e[0] * e[0] + e[1] * e[1] + e[2] * e[2];
    vp::assume( q2 != T( 0 ));
    n.compute_normal( p, q, r );
    const Vector< 3, T > m = p.compute_normal( q, r );
    const T l = std::sqrt( q2 );
    for( size_t i = 0; i < 3; ++i )
    {
        vp::eq( n.array[i] * l, e[i], "n.compute_normal( a, b, c ) is the unit vector along ( b - a ) x ( c - a )", int( i ));
        vp::eq( m.array[i] * l, e[i], "a.compute_normal( b, c ) is the unit vector along ( b - a ) x ( c - a )", int( i ));
    }
    vu::same( p, a, "operand unchanged" );
    vu::same( q, b, "operand unchanged" );
    vu::same( r, c, "operand unchanged" );
    Vector< 3, T >& t = *( vp_bool( "which", -1 ) ? &q : &r );
    t.compute_normal( p, q, r );
    for( size_t i = 0; i < 3; ++i )
        vp::eq( t.array[i] * l, e[i], "compute_normal() with the target among the operands", int( i ));
}

// Rodrigues' rotation about a (not necessarily unit) axis
template< class T > static void rotates()
{
    Vector< 3, T > v, k;
    T a[3], b[3];
    vu::vec( v, a, "v" );
    vu::vec( k, b, "axis" );
    const T th = vp::inf_< T >( "theta" );
    const T l2 = b[0] * b[0] + b[1] * b[1] + b[2] * b[2];
    vp::assume( l2 != T( 0 ));
    const T l = std::sqrt( l2 );
    const T s = std::sin( th ), c = std::cos( th );
    const T u[3] = { b[0] / l, b[1] / l, b[2] / l };
    const T d = u[0] * a[0] + u[1] * a[1] + u[2] * a[2];
    const T x[3] = { u[1] * a[2] - u[2] * a[1], u[2] * a[0] - u[0] * a[2], u[0] * a[1] - u[1] * a[0] };
    const Vector< 3, T > r = v.rotate( th, k );
    for( size_t i = 0; i < 3; ++i )
        vp::eq( r.array[i], a[i] * c + x[i] * s + u[i] * d * ( T( 1 ) - c ), "rotate( theta, axis ) is Rodrigues' rotation", int( i ));
    vu::same( v, a, "operand unchanged" );
    vu::same( k, b, "axis unchanged" );
}

template< size_t M, class T > static void recip()
{
    Vector< M, T > v, w, r;
    T a[M];
    vu::vec( v, a, "a" );
    for( size_t i = 0; i < M; ++i )
        vp::assume( a[i] != T( 0 ) || i == 0 );
    w = v; r = v;
    w.reciprocal_safe();
    for( size_t i = 0; i < M; ++i )
        vp::eq( w.array[i], a[i] == T( 0 ) ? std::numeric_limits< T >::max() : T( 1 ) / a[i], "reciprocal_safe()", int( i ));
    vp::assume( a[0] != T( 0 ));
    r.reciprocal();
    for( size_t i = 0; i < M; ++i )
        vp::eq( r.array[i] * a[i], T( 1 ), "reciprocal()", int( i ));
}

template< size_t M, class T > static void roots()
{
    Vector< M, T > v;
    T a[M];
    vu::vec( v, a, "a" );
    for( size_t i = 0; i < M; ++i )
        vp::assume( a[i] >= T( 0 ));
    v.sqrt_elementwise();
    for( size_t i = 0; i < M; ++i )
    {
        vp::le( T( 0 ), v.array[i], "sqrt_elementwise() >= 0", int( i ));
        vp::eq( v.array[i] * v.array[i], a[i], "sqrt_elementwise()", int( i ));
    }
}

VP_REAL( dot2f ) { dots< 2, float >(); }
VP_REAL( dot3d ) { dots< 3, double >(); }
VP_REAL( dot4f ) { dots< 4, float >(); }
VP_REAL( dot5d ) { dots< 5, double >(); }
VP_REAL( dot3i ) { dots< 3, int >(); }
VP_REAL( crossf ) { crosses< float >(); }
VP_REAL( crossd ) { crosses< double >(); }
VP_REAL( crossi ) { crosses< int >(); }
VP_REAL( len2d ) { lengths< 2, double >(); }
VP_REAL( len3f ) { lengths< 3, float >(); }
VP_REAL( len4d ) { lengths< 4, double >(); }
VP_REAL( norm2f ) { norms< 2, float >(); }
VP_REAL( norm3d ) { norms< 3, double >(); }
VP_REAL( norm4f ) { norms< 4, float >(); }
VP_REAL( trif ) { normals< float >(); }
VP_REAL( trid ) { normals< double >(); }
VP_REAL( rotf ) { rotates< float >(); }
VP_REAL( rotd ) { rotates< double >(); }
VP_REAL( recip3f ) { recip< 3, float >(); }
VP_REAL( recip4d ) { recip< 4, double >(); }
VP_REAL( root3f ) { roots< 3, float >(); }
VP_REAL( root4d ) { roots< 4, double >(); }
VP_REAL( norm6d ) { norms< 6, double >(); }
VP_REAL( len7d ) { lengths< 7, double >(); }
VPT_REAL( len16d ) { lengths< 16, double >(); }

// rotating by an angle near that of the previous call
VP_REAL( rotmoved )
{
    const double th = vp::inf_< double >( "theta" ), d = vp::inf_< double >( "d" );
    vp::assume( th >= 0.29 );
    vp::assume( th <= 1.3 );
    vp::assume( d >= 0.0003 );
    vp::assume( d <= 0.00095 );
    // the solver knows of sin and cos what is said here; the ranges agree with those above
    const double s = std::sin( th ), c = std::cos( th ), sd = std::sin( d );
    vp::assume( s >= 0.3 );
    vp::assume( s <= 0.93 );
    vp::assume( c > 0 );
    vp::assume( sd >= 0.0004 );
    vp::assume( sd <= 0.0009 );
    vp::assume( std::cos( d ) > 0 );
    const Vector< 3, double > v( 1, 2, 3 ), k( 0, 0, 1 );
    v.rotate( th + d, k );
    const Vector< 3, double > r = v.rotate( th, k );
    vp::eq( r.array[0], c - 2 * s, "rotate( theta, axis ) is Rodrigues' rotation", 0 );
    vp::eq( r.array[1], s + 2 * c, "rotate( theta, axis ) is Rodrigues' rotation", 1 );
    vp::eq( r.array[2], 3., "rotate( theta, axis ) is Rodrigues' rotation", 2 );
}

// infinities, NaN and signed zeros
VP_FP( sp_dot3f ) { vp::Special on; dots< 3, float >(); }
VP_FP( sp_dot2d ) { vp::Special on; dots< 2, double >(); }
VP_FP( sp_crossf ) { vp::Special on; crosses< float >(); }
