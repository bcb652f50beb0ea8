// the discrete cosine basis: orthonormal rows, so transform and transposed transform restore every signal
//@ variant release -DNDEBUG
//@ opt (dct|e)\d+ trigconst=1
#include "vu.h"
#include <cmath>
using namespace vmml;

template< class T > static void within( T a, T b, T eps, const char* l, int i )
{
    vp::le( T( a - b ), eps, l, i );
    vp::le( T( b - a ), eps, l, i );
}

template< size_t M, class T > static void roundtrip( bool stale )
{
    Matrix< M, M, T > d;
    T old[M][M], x[M];
    if( stale )
        vu::mat( d, old, "old" );
    d.set_dct();
    Vector< M, T > v;
    vu::vec( v, x, "x" );
    for( size_t i = 0; i < M; ++i )
        vp::assume( x[i] <= T( 100 ) && x[i] >= T( -100 ));
    const Vector< M, T > c = d * v;
    const Matrix< M, M, T > t = transpose( d );
    const Vector< M, T > r = t * c;
    for( size_t i = 0; i < M; ++i )
        within( r.array[i], x[i], T( 0.01 ), "transpose( dct ) * ( dct * x ) is x", int( i ));
    // coefficients of the signal: weighted sums with the cosines
    for( size_t i = 0; i < M; ++i )
    {
        T s = 0;
        for( size_t j = 0; j < M; ++j )
            s += T( std::cos( M_PI * ( double( j ) + 0.5 ) * double( i ) / double( M ))) * x[j];
        // s * sqrt( 2 / M ), the first one s * sqrt( 1 / M )
        s *= T( std::sqrt( i == 0 ? 1.0 / M : 2.0 / M ));
        within( c.array[i], s, T( 0.01 ), "coefficient is the weighted cosine sum", int( i ));
    }
}

template< size_t M, size_t N, class T > static void entries()
{
    Matrix< M, N, T > d;
    T old[M][N];
    vu::mat( d, old, "old" );
    d.set_dct();
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            const double w = std::sqrt( i == 0 ? 1.0 / M : 2.0 / M );
            const T e = T( w * std::cos( M_PI * ( double( j ) + 0.5 ) * double( i ) / double( M )));
            const T eps = T( sizeof( T ) == sizeof( float ) ? 1e-6 : 1e-12 ), g = d.array[ j * M + i ];
            vp::check( g - e <= eps, "entry");
            vp::check( e - g <= eps, "entry");
        }
}

VP_REAL( dct1d ) { roundtrip< 1, double >( true ); }
VP_REAL( dct2d ) { roundtrip< 2, double >( true ); }
VP_REAL( dct2f ) { roundtrip< 2, float >( false ); }
VP_REAL( dct3d ) { roundtrip< 3, double >( true ); }
VP_REAL( dct4d ) { roundtrip< 4, double >( true ); }
VP_REAL( dct4f ) { roundtrip< 4, float >( true ); }
VP_REAL( dct5d ) { roundtrip< 5, double >( true ); }
VP_REAL( dct6d ) { roundtrip< 6, double >( true ); }
VP_REAL( dct7f ) { roundtrip< 7, float >( true ); }
VP_REAL( dct8d ) { roundtrip< 8, double >( true ); }
VP_REAL( e44d ) { entries< 4, 4, double >(); }
VP_REAL( e35f ) { entries< 3, 5, float >(); }
VP_REAL( e52d ) { entries< 5, 2, double >(); }
VP_REAL( e88d ) { entries< 8, 8, double >(); }
VP_REAL( e97d ) { entries< 9, 7, double >(); }
VP_REAL( e67f ) { entries< 6, 7, float >(); }
VPT_REAL( e1617d ) { entries< 16, 17, double >(); }
VPT_REAL( dct12d ) { roundtrip< 12, double >( true ); }
VPT_REAL( dct16f ) { roundtrip< 16, float >( true ); }
VPT_REAL( dct11d ) { roundtrip< 11, double >( true ); }
VP_REAL( all_e1 ) { entries< 1, 1, double >(); entries< 1, 2, double >(); entries< 1, 3, double >(); entries< 1, 4, double >(); entries< 1, 5, double >(); }
VP_REAL( all_e2 ) { entries< 2, 1, double >(); entries< 2, 2, double >(); entries< 2, 3, double >(); entries< 2, 4, double >(); entries< 2, 5, double >(); }
VP_REAL( all_e3 ) { entries< 3, 1, double >(); entries< 3, 2, double >(); entries< 3, 3, double >(); entries< 3, 4, double >(); entries< 3, 5, double >(); }
VP_REAL( all_e4 ) { entries< 4, 1, double >(); entries< 4, 2, double >(); entries< 4, 3, double >(); entries< 4, 4, double >(); entries< 4, 5, double >(); }
VP_REAL( all_e5 ) { entries< 5, 1, double >(); entries< 5, 2, double >(); entries< 5, 3, double >(); entries< 5, 4, double >(); entries< 5, 5, double >(); }
