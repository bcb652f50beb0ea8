// unit quaternions and rotation matrices describe the same rotation
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/quaternion.hpp>
using namespace vmml;

// an arbitrary unit quaternion; every one is +- one of these with component k positive or zero
template< class T > static void unit( T (&u)[4], int k )
{
    T s = T( 1 );
    for( int i = 0; i < 4; ++i )
        if( i != k )
        {
            u[i] = vp::inf_< T >( "u", i );
            s -= u[i] * u[i];
        }
    vp::assume( s >= T( 0 ));
    u[k] = std::sqrt( s );
}

// x -> q x q^-1 for a unit quaternion
template< class T > static void rot( const T (&u)[4], T (&m)[3][3] )
{
    const T x = u[0], y = u[1], z = u[2], w = u[3];
    m[0][0] = T( 1 ) - T( 2 ) * ( y * y + z * z ); m[0][1] = T( 2 ) * ( x * y - w * z ); m[0][2] = T( 2 ) * ( x * z + w * y );
    m[1][0] = T( 2 ) * ( x * y + w * z ); m[1][1] = T( 1 ) - T( 2 ) * ( x * x + z * z ); m[1][2] = T( 2 ) * ( y * z - w * x );
    m[2][0] = T( 2 ) * ( x * z - w * y ); m[2][1] = T( 2 ) * ( y * z + w * x ); m[2][2] = T( 1 ) - T( 2 ) * ( x * x + y * y );
}

// far enough from the limits between the library's cases that rounding cannot cross them
template< size_t D, class T > static void frommat( int k, bool set )
{
    T u[4], r[3][3];
    unit( u, k );
    rot( u, r );
    Matrix< D, D, T > m;
    T a[D][D];
    for( size_t i = 0; i < D; ++i )
        for( size_t j = 0; j < D; ++j )
            m.array[ j * D + i ] = a[i][j] = ( i < 3 && j < 3 ) ? r[i][j] : vp::inf_< T >( "rest", int( i * D + j ));
    Quaternion< T > q;
    if( set )
        q.template set< D >( m );
    else
        q = Quaternion< T >( m );
    for( int i = 0; i < 4; ++i )
        for( int j = i; j < 4; ++j )
            vp::eq( q.array[i] * q.array[j], u[i] * u[j], "the quaternion of a rotation matrix is +- the rotation's", i * 4 + j );
    vu::same( m, a, "matrix unchanged" );
}

template< class T > static void tomat()
{
    T a[4];
    Quaternion< T > q;
    for( int i = 0; i < 4; ++i )
        q.array[i] = a[i] = vp::inf_< T >( "q", i );
    const Matrix< 3, 3, T > m = q.get_rotation_matrix();
    Matrix< 4, 4, T > n;
    T r[4][4];
    vu::mat( n, r, "rest" );
    q.get_rotation_matrix( n );
    // q v conjugate( q ) for the basis vectors
    const T x = a[0], y = a[1], z = a[2], w = a[3];
    const T e[3][3] = {
        { w * w + x * x - y * y - z * z, T( 2 ) * ( x * y - w * z ), T( 2 ) * ( x * z + w * y ) },
        { T( 2 ) * ( x * y + w * z ), w * w - x * x + y * y - z * z, T( 2 ) * ( y * z - w * x ) },
        { T( 2 ) * ( x * z - w * y ), T( 2 ) * ( y * z + w * x ), w * w - x * x - y * y + z * z }};
    vu::same( m, e, "get_rotation_matrix() maps v to q v conjugate( q )" );
    for( int i = 0; i < 4; ++i )
        for( int j = 0; j < 4; ++j )
            vp::eq( n.array[ j * 4 + i ], i < 3 && j < 3 ? e[i][j] : r[i][j], "4x4: rotation in the upper left, the rest unchanged", i * 4 + j );
    for( int i = 0; i < 4; ++i )
        vp::eq( q.array[i], a[i], "quaternion unchanged", i );
}

// the product of quaternions is the product of the rotations
template< class T > static void compose()
{
    Quaternion< T > p, q;
    for( int i = 0; i < 4; ++i )
    {
        p.array[i] = vp::inf_< T >( "p", i );
        q.array[i] = vp::inf_< T >( "q", i );
    }
    const Matrix< 3, 3, T > a = p.get_rotation_matrix(), b = q.get_rotation_matrix(), c = ( p * q ).get_rotation_matrix();
    for( int i = 0; i < 3; ++i )
        for( int j = 0; j < 3; ++j )
        {
            T s = T( 0 );
            for( int k = 0; k < 3; ++k )
                s += a.array[ k * 3 + i ] * b.array[ j * 3 + k ];
            vp::eq( c.array[ j * 3 + i ], s, "rotation of p * q is the composition", i * 3 + j );
        }
}

template< class T > static void orthonormal()
{
    T u[4];
    unit( u, 3 );
    Quaternion< T > q( u[0], u[1], u[2], u[3] );
    const Matrix< 3, 3, T > m = q.get_rotation_matrix();
    T a[3][3];
    for( int i = 0; i < 3; ++i )
        for( int j = 0; j < 3; ++j )
            a[i][j] = m.array[ j * 3 + i ];
    for( int i = 0; i < 3; ++i )
        for( int j = 0; j < 3; ++j )
            vp::eq( a[i][0] * a[j][0] + a[i][1] * a[j][1] + a[i][2] * a[j][2], T( i == j ? 1 : 0 ), "a unit quaternion gives an orthonormal matrix", i * 3 + j );
    vp::eq( a[0][0] * ( a[1][1] * a[2][2] - a[1][2] * a[2][1] ) - a[0][1] * ( a[1][0] * a[2][2] - a[1][2] * a[2][0] )
            + a[0][2] * ( a[1][0] * a[2][1] - a[1][1] * a[2][0] ), T( 1 ), "a unit quaternion gives a matrix of determinant 1" );
}

VP_REAL( from3d_w ) { frommat< 3, double >( 3, true ); }
VP_REAL( from3d_x ) { frommat< 3, double >( 0, true ); }
VP_REAL( from3d_y ) { frommat< 3, double >( 1, true ); }
VP_REAL( from3d_z ) { frommat< 3, double >( 2, true ); }
VP_REAL( from4f_w ) { frommat< 4, float >( 3, false ); }
VP_REAL( from3f_x ) { frommat< 3, float >( 0, false ); }
VP_REAL( from4f_y ) { frommat< 4, float >( 1, false ); }
VP_REAL( from4d_z ) { frommat< 4, double >( 2, false ); }
VP_REAL( tof ) { tomat< float >(); }
VP_REAL( tod ) { tomat< double >(); }
VP_REAL( compf ) { compose< float >(); }
VP_REAL( compd ) { compose< double >(); }
VP_REAL( orthf ) { orthonormal< float >(); }
VP_REAL( orthd ) { orthonormal< double >(); }
