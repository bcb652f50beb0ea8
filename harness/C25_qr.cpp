// QR decomposition by stabilised Gram-Schmidt
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/qr_decomposition.hpp>
using namespace vmml;

template< size_t M, size_t N, class T > static void qr( bool orth )
{
    Matrix< M, N, T > A;
    T a[M][N];
    vu::mat( A, a, "a" );
    // linearly independent columns: positive leading Gram determinants
    T g[N][N];
    for( size_t i = 0; i < N; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            g[i][j] = T( 0 );
            for( size_t k = 0; k < M; ++k )
                g[i][j] += a[k][i] * a[k][j];
        }
    vp::assume( g[0][0] > T( 0 ));
    if( N > 1 )
        vp::assume( g[0][0] * g[N > 1][N > 1] - g[0][N > 1] * g[0][N > 1] > T( 0 ));
    if( N > 2 )
    {
        const size_t y = N > 1, z = N > 2 ? 2 : 0;
        vp::assume( g[0][0] * ( g[y][y] * g[z][z] - g[y][z] * g[y][z] ) - g[0][y] * ( g[0][y] * g[z][z] - g[y][z] * g[0][z] )
                    + g[0][z] * ( g[0][y] * g[y][z] - g[y][y] * g[0][z] ) > T( 0 ));
    }
    Matrix< M, M, T > Q;
    Matrix< N, N, T > R;
    for( size_t i = 0; i < M * M; ++i )
        Q.array[i] = T( 7 );
    for( size_t i = 0; i < N * N; ++i )
        R.array[i] = T( 7 );
    qr_decompose_gram_schmidt( A, Q, R );
    for( size_t i = 0; i < N; ++i )
    {
        for( size_t j = 0; j < i; ++j )
            vp::eq( R.array[ j * N + i ], T( 0 ), "R is upper triangular", int( i * N + j ));
        vp::check( R.array[ i * N + i ] > T( 0 ), "the diagonal of R is positive" );
    }
    for( size_t c = 0; c < N; ++c )
        for( size_t r = 0; r < M; ++r )
        {
            T s = T( 0 );
            for( size_t k = 0; k <= c; ++k )
                s += Q.array[ k * M + r ] * R.array[ c * N + k ];
            vp::eq( s, a[r][c], "Q * R is the decomposed matrix", int( r * N + c ));
        }
    if( orth )
        for( size_t i = 0; i < N; ++i )
            for( size_t j = i; j < N; ++j )
            {
                T s = T( 0 );
                for( size_t k = 0; k < M; ++k )
                    s += Q.array[ i * M + k ] * Q.array[ j * M + k ];
                vp::eq( s, T( i == j ? 1 : 0 ), "the columns of Q are orthonormal", int( i * N + j ));
            }
    for( size_t c = N; c < M; ++c )
        for( size_t r = 0; r < M; ++r )
            vp::eq( Q.array[ c * M + r ], T( 0 ), "columns of Q beyond those of the matrix are zero", int( c * M + r ));
    vu::same( A, a, "the decomposed matrix is unchanged" );
}

VP_REAL( q11f ) { qr< 1, 1, float >( true ); }
VP_REAL( q21d ) { qr< 2, 1, double >( true ); }
VP_REAL( q22f ) { qr< 2, 2, float >( true ); }
VP_REAL( q22d ) { qr< 2, 2, double >( true ); }
VP_REAL( q32f ) { qr< 3, 2, float >( true ); }
VP_REAL( q41d ) { qr< 4, 1, double >( true ); }

// larger matrices: U * R for fixed orthogonal columns U of length len and any upper triangular R with a positive diagonal;
// the decomposition is unique, so it has to return exactly U / len and len * R
template< size_t M, size_t N, class T > static void fixed( const T (&u)[M][N], T len )
{
    T r[N][N];
    Matrix< M, N, T > A;
    for( size_t i = 0; i < N; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            r[i][j] = T( 0 );
            if( j >= i )
                r[i][j] = vp::inf_< T >( "r", int( i * N + j ));
            if( i == j )
                vp::assume( r[i][j] > T( 0 ));
        }
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            T s = T( 0 );
            for( size_t k = 0; k <= j; ++k )
                s += u[i][k] * r[k][j];
            A.array[ j * M + i ] = s;
        }
    Matrix< M, M, T > Q;
    Matrix< N, N, T > R;
    qr_decompose_gram_schmidt( A, Q, R );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < M; ++j )
            vp::eq( Q.array[ j * M + i ] * len, j < N ? u[i][ j < N ? j : 0 ] : T( 0 ), "Q is the orthonormal factor", int( i * M + j ));
    for( size_t i = 0; i < N; ++i )
        for( size_t j = 0; j < N; ++j )
            vp::eq( R.array[ j * N + i ], len * r[i][j], "R is the triangular factor", int( i * N + j ));
}

template< class T, int V > static void fix33()
{
    const T u[3][3] = {{ 2, 3, 6 }, { 3, -6, 2 }, { 6, 2, -3 }};
    const T v[3][3] = {{ 0, -3, 4 }, { 0, 4, 3 }, { -5, 0, 0 }};
    fixed< 3, 3, T >( V ? v : u, V ? T( 5 ) : T( 7 ));
}
template< class T > static void fix44()
{
    const T h = T( 0.5 );
    const T u[4][4] = {{ h, h, h, h }, { h, h, -h, -h }, { h, -h, h, -h }, { h, -h, -h, h }};
    fixed< 4, 4, T >( u, T( 1 ));
}
template< class T > static void fix43()
{
    const T h = T( 0.5 );
    const T u[4][3] = {{ h, -h, h }, { h, h, -h }, { -h, h, h }, { h, h, h }};
    fixed< 4, 3, T >( u, T( 1 ));
}
template< class T > static void fix52()
{
    const T u[5][2] = {{ 1, 2 }, { 2, -1 }, { 2, 4 }, { 4, -2 }, { 0, 0 }};
    fixed< 5, 2, T >( u, T( 5 ));
}
VP_REAL( f33ud ) { fix33< double, 0 >(); }
VP_REAL( f33vf ) { fix33< float, 1 >(); }
VP_REAL( f44f ) { fix44< float >(); }
VP_REAL( f44d ) { fix44< double >(); }
VP_REAL( f43d ) { fix43< double >(); }
VP_REAL( f52f ) { fix52< float >(); }
