// inverse: returned flag == (|det| > tolerance) and, when true, M * inv == I == inv * M
//@ variant release -DNDEBUG
#include "vp.h"
#include <vmmlib/matrix.hpp>
using namespace vmml;

template< class T, size_t N > static T leibniz( const T a[N][N] );
template< class T > T det2( T a, T b, T c, T d ) { return a * d - b * c; }

template< class T > T sdet( const T (&a)[2][2] ) { return det2( a[0][0], a[0][1], a[1][0], a[1][1] ); }
template< class T > T sdet( const T (&a)[3][3] )
{
    return a[0][0] * det2( a[1][1], a[1][2], a[2][1], a[2][2] )
         - a[0][1] * det2( a[1][0], a[1][2], a[2][0], a[2][2] )
         + a[0][2] * det2( a[1][0], a[1][1], a[2][0], a[2][1] );
}
template< class T > T sdet( const T (&a)[4][4] )
{
    T r = 0;
    for( int c = 0; c < 4; ++c )
    {
        T m[3][3];
        for( int i = 1; i < 4; ++i )
            for( int j = 0, k = 0; j < 4; ++j )
                if( j != c ) m[i-1][k++] = a[i][j];
        T t = a[0][c] * sdet( m );
        r += ( c & 1 ) ? -t : t;
    }
    return r;
}

template< size_t N, class T > static void inv_case( bool deftol )
{
    T a[N][N];
    Matrix< N, N, T > m, inv;
    for( size_t i = 0; i < N; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            a[i][j] = vp::inf_< T >( "a", int( i * N + j ));
            m.array[ j * N + i ] = a[i][j];
        }
    const Matrix< N, N, T > before = m;
    T tol = std::numeric_limits< T >::epsilon();
    bool ok;
    if( deftol )
        ok = m.inverse( inv );
    else
    {
        tol = vp::inf_< T >( "tol" );
        vp::assume( tol >= 0 );
        ok = m.inverse( inv, tol );
    }
    const T d = sdet( a );
    const T ad = d < 0 ? -d : d;
    vp::check( ok == ( ad > tol ), "inverse() returns true exactly when |det| > tolerance" );
    for( size_t i = 0; i < N * N; ++i )
        vp::eq( m.array[i], before.array[i], "inverse() leaves the matrix unchanged", int( i ));
    if( !ok )
        return;
    for( size_t i = 0; i < N; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            T l = 0, r = 0;
            for( size_t k = 0; k < N; ++k )
            {
                l += a[i][k] * inv.array[ j * N + k ];
                r += inv.array[ k * N + i ] * a[k][j];
            }
            vp::eq( l, T( i == j ), "M * inverse == I", int( i * N + j ));
            vp::eq( r, T( i == j ), "inverse * M == I", int( i * N + j ));
        }
}

VP_REAL( inv2f ) { inv_case< 2, float >( false ); }
VP_REAL( inv3f ) { inv_case< 3, float >( false ); }
VP_REAL( inv4f ) { inv_case< 4, float >( false ); }
VP_REAL( inv2d ) { inv_case< 2, double >( true ); }
VP_REAL( inv3d ) { inv_case< 3, double >( true ); }
VP_REAL( inv4d ) { inv_case< 4, double >( true ); }

// the comparison with the tolerance, bit for bit: the determinant of diag( x, 1, .. ) is x, every product and sum is exact
template< size_t N, class T > static void inv_edge()
{
    Matrix< N, N, T > m, inv;
    for( size_t i = 0; i < N * N; ++i )
        m.array[i] = T( 0 );
    for( size_t i = 0; i < N; ++i )
        m.array[i * N + i] = T( 1 );
    const T x = vp::inf_< T >( "x" ), tol = vp::inf_< T >( "tol" );
    m.array[0] = x;
    vp::check( m.inverse( inv, tol ) == ( vp::absv( x ) > tol ), "inverse() compares the exact determinant with the exact tolerance" );
    vp::check( m.inverse( inv ) == ( vp::absv( x ) > std::numeric_limits< T >::epsilon( )), "inverse() compares with the epsilon of the type" );
}
VP_FP( edge2f ) { inv_edge< 2, float >(); }
VP_FP( edge2d ) { inv_edge< 2, double >(); }
VP_FP( edge3f ) { inv_edge< 3, float >(); }
VP_FP( edge3d ) { inv_edge< 3, double >(); }
VP_FP( edge4f ) { inv_edge< 4, float >(); }
VP_FP( edge4d ) { inv_edge< 4, double >(); }
