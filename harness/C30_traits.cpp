// Boost.LA traits: element access by row, column or component, static or run-time, reading and writing
//@ variant release -DNDEBUG
#include <vmmlib/matrix_traits.hpp>
#include <vmmlib/vector_traits.hpp>
#include "vu.h"
using namespace vmml;

#define ASSERTS( flag, stmt ) do { flag = false; try { stmt; } catch( const boost::asserted& ) { flag = true; } } while( 0 )

template< int R, int C, class Tr, size_t M, size_t N, class T > static void at_static( const T ( &a )[M][N] )
{
    Matrix< M, N, T > m;
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) m.array[ j * M + i ] = a[i][j];
    const Matrix< M, N, T >& cm = m;
    vp::eq( Tr::template r< R, C >( cm ), a[R][C], "r<row,col>" );
    const T n = vp::in< T >( "ns", R * int( N ) + C );
    Tr::template w< R, C >( m ) = n;
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
        vp::eq( m.array[ j * M + i ], i == R && j == C ? n : a[i][j], "w<row,col> writes its element", int( i * N + j ));
}

template< int K, class Tr, size_t M, size_t N, class T > struct all_static
{
    static void run( const T ( &a )[M][N] )
    {
        at_static< K / int( N ), K % int( N ), Tr, M, N, T >( a );
        all_static< K - 1, Tr, M, N, T >::run( a );
    }
};
template< class Tr, size_t M, size_t N, class T > struct all_static< -1, Tr, M, N, T >
{ static void run( const T ( & )[M][N] ) {} };

template< size_t M, size_t N, class T > static void mat_traits()
{
    typedef boost::la::matrix_traits< Matrix< M, N, T > > Tr;
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matany( m, a, "m" );
    vp::check( Tr::rows == int( M ) && Tr::cols == int( N ), "rows and cols" );
    all_static< int( M * N ) - 1, Tr, M, N, T >::run( a );
    const int r = int( vp_i32( "r", -1 )), c = int( vp_i32( "c", -1 ));
    const bool in = r >= 0 && c >= 0 && r < int( M ) && c < int( N );
    const T n = vp::in< T >( "n" );
    bool asserted;
    T got = T();
    const Matrix< M, N, T >& cm = m;
    const bool wr = vp_pick( "write", -1, 2 ) != 0;
    if( wr ) ASSERTS( asserted, Tr::iw( r, c, m ) = n );
    else ASSERTS( asserted, got = Tr::ir( r, c, cm ));
    vp::check( asserted != in, "asserts exactly when the element does not exist" );
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
        vp::eq( m.array[ j * M + i ], wr && int( i ) == r && int( j ) == c ? n : a[i][j],
                "the element (row, col) is written, no other", int( i * N + j ));
    if( in && !wr )
        vp::eq( got, m.array[ c * int( M ) + r ], "ir reads the element (row, col)" );
}

template< size_t M, class T > static void vec_traits()
{
    typedef boost::la::vector_traits< Vector< M, T > > Tr;
    Vector< M, T > v;
    T a[M];
    vu::vecany( v, a, "v" );
    const Vector< M, T >& cv = v;
    vp::check( Tr::dim == int( M ), "dim" );
    vp::eq( Tr::template r< 0 >( cv ), a[0], "r<0>" );
    vp::eq( Tr::template r< int( M ) / 2 >( cv ), a[M / 2], "r<M/2>" );
    vp::eq( Tr::template r< int( M ) - 1 >( cv ), a[M - 1], "r<M-1>" );
    const int i = int( vp_i32( "i", -1 ));
    const bool in = i >= 0 && i < int( M );
    const T n = vp::in< T >( "n" );
    bool asserted = !in;
    T got = T();
    const uint64_t how = vp_pick( "how", -1, 4 );
    int at = i;
    if( how == 0 ) ASSERTS( asserted, got = Tr::ir( i, cv ));
    else if( how == 1 ) ASSERTS( asserted, Tr::iw( i, v ) = n );
    else if( how == 2 ) { Tr::template w< 0 >( v ) = n; at = 0; }
    else { Tr::template w< int( M ) - 1 >( v ) = n; at = M - 1; }
    vp::check( asserted != in, "asserts exactly when the component does not exist" );
    for( size_t k = 0; k < M; ++k )
        vp::eq( v.array[k], how && int( k ) == at ? n : a[k], "exactly the component is written", int( k ));
    if( in && !how )
        vp::eq( got, a[i], "ir reads the component" );
}

VP_FP( m23f ) { mat_traits< 2, 3, float >(); }
VP_FP( m32d ) { mat_traits< 3, 2, double >(); }
VP_FP( m44f ) { mat_traits< 4, 4, float >(); }
VP_FP( m15i ) { mat_traits< 1, 5, int >(); }
VP_FP( m51b ) { mat_traits< 5, 1, uint8_t >(); }
VPT_FP( m57d ) { mat_traits< 5, 7, double >(); }
VP_FP( v1f ) { vec_traits< 1, float >(); }
VP_FP( v3d ) { vec_traits< 3, double >(); }
VP_FP( v4f ) { vec_traits< 4, float >(); }
VP_FP( v7i ) { vec_traits< 7, int >(); }
