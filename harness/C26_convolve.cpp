// convolution with a kernel, the border elements extended outwards
//@ variant release -DNDEBUG
#include "vu.h"
using namespace vmml;

template< size_t M, size_t N, size_t U, size_t V, class T > static void conv()
{
    Matrix< M, N, T > m;
    Matrix< U, V, T > k;
    T a[M][N], w[U][V], e[M][N];
    vu::matmod( m, a, "m" );
    vu::matmod( k, w, "k" );
    for( int y = 0; y < int( M ); ++y )
        for( int x = 0; x < int( N ); ++x )
        {
            T s = T( 0 );
            for( int j = 0; j < int( U ); ++j )
                for( int i = 0; i < int( V ); ++i )
                {
                    int r = y + j - int( U / 2 ), c = x + i - int( V / 2 );
                    r = r < 0 ? 0 : r >= int( M ) ? int( M ) - 1 : r;
                    c = c < 0 ? 0 : c >= int( N ) ? int( N ) - 1 : c;
                    s += w[j][i] * a[r][c];
                }
            e[y][x] = s;
        }
    m.convolve( k );
    vu::same( m, e, "convolve()" );
    vu::same( k, w, "kernel unchanged" );
}

// the kernel is the matrix itself
template< size_t M, size_t N, class T > static void self()
{
    Matrix< M, N, T > m;
    T a[M][N], e[M][N];
    vu::matmod( m, a, "m" );
    for( int y = 0; y < int( M ); ++y )
        for( int x = 0; x < int( N ); ++x )
        {
            T s = T( 0 );
            for( int j = 0; j < int( M ); ++j )
                for( int i = 0; i < int( N ); ++i )
                {
                    int r = y + j - int( M / 2 ), c = x + i - int( N / 2 );
                    r = r < 0 ? 0 : r >= int( M ) ? int( M ) - 1 : r;
                    c = c < 0 ? 0 : c >= int( N ) ? int( N ) - 1 : c;
                    s += a[j][i] * a[r][c];
                }
            e[y][x] = s;
        }
    m.convolve( m );
    vu::same( m, e, "convolve() with the matrix itself" );
}

VP_REAL( self33d ) { self< 3, 3, double >(); }
VP_REAL( self23f ) { self< 2, 3, float >(); }
VP_REAL( c52_32d ) { conv< 5, 2, 3, 2, double >(); }
VP_REAL( c25_25f ) { conv< 2, 5, 2, 5, float >(); }
VP_REAL( c61_51d ) { conv< 6, 1, 5, 1, double >(); }
VP_REAL( c12_34d ) { conv< 1, 2, 3, 4, double >(); }
VP_REAL( c33_33f ) { conv< 3, 3, 3, 3, float >(); }
VP_REAL( c33_33d ) { conv< 3, 3, 3, 3, double >(); }
VP_REAL( c24_33d ) { conv< 2, 4, 3, 3, double >(); }
VP_REAL( c42_33d ) { conv< 4, 2, 3, 3, double >(); }
VP_REAL( c34_13f ) { conv< 3, 4, 1, 3, float >(); }
VP_REAL( c34_31f ) { conv< 3, 4, 3, 1, float >(); }
VP_REAL( c44_22d ) { conv< 4, 4, 2, 2, double >(); }
VP_REAL( c33_11d ) { conv< 3, 3, 1, 1, double >(); }
VP_REAL( c23_55d ) { conv< 2, 3, 5, 5, double >(); }
VP_REAL( c32_23i ) { conv< 3, 2, 2, 3, int >(); }
VP_REAL( c55_33d ) { conv< 5, 5, 3, 3, double >(); }
VP_REAL( c16_15f ) { conv< 1, 6, 1, 5, float >(); }
VP_REAL( c78_53d ) { conv< 7, 8, 5, 3, double >(); }
VPT_REAL( c1011_75d ) { conv< 10, 11, 7, 5, double >(); }
// all small shapes
VP_REAL( all_c11 ) { conv< 1, 1, 1, 1, double >(); conv< 1, 1, 1, 2, double >(); conv< 1, 1, 1, 3, double >(); conv< 1, 1, 2, 1, double >(); conv< 1, 1, 2, 2, double >(); conv< 1, 1, 2, 3, double >(); conv< 1, 1, 3, 1, double >(); conv< 1, 1, 3, 2, double >(); conv< 1, 1, 3, 3, double >(); }
VP_REAL( all_c12 ) { conv< 1, 2, 1, 1, double >(); conv< 1, 2, 1, 2, double >(); conv< 1, 2, 1, 3, double >(); conv< 1, 2, 2, 1, double >(); conv< 1, 2, 2, 2, double >(); conv< 1, 2, 2, 3, double >(); conv< 1, 2, 3, 1, double >(); conv< 1, 2, 3, 2, double >(); conv< 1, 2, 3, 3, double >(); }
VP_REAL( all_c13 ) { conv< 1, 3, 1, 1, double >(); conv< 1, 3, 1, 2, double >(); conv< 1, 3, 1, 3, double >(); conv< 1, 3, 2, 1, double >(); conv< 1, 3, 2, 2, double >(); conv< 1, 3, 2, 3, double >(); conv< 1, 3, 3, 1, double >(); conv< 1, 3, 3, 2, double >(); conv< 1, 3, 3, 3, double >(); }
VP_REAL( all_c21 ) { conv< 2, 1, 1, 1, double >(); conv< 2, 1, 1, 2, double >(); conv< 2, 1, 1, 3, double >(); conv< 2, 1, 2, 1, double >(); conv< 2, 1, 2, 2, double >(); conv< 2, 1, 2, 3, double >(); conv< 2, 1, 3, 1, double >(); conv< 2, 1, 3, 2, double >(); conv< 2, 1, 3, 3, double >(); }
VP_REAL( all_c22 ) { conv< 2, 2, 1, 1, double >(); conv< 2, 2, 1, 2, double >(); conv< 2, 2, 1, 3, double >(); conv< 2, 2, 2, 1, double >(); conv< 2, 2, 2, 2, double >(); conv< 2, 2, 2, 3, double >(); conv< 2, 2, 3, 1, double >(); conv< 2, 2, 3, 2, double >(); conv< 2, 2, 3, 3, double >(); }
VP_REAL( all_c23 ) { conv< 2, 3, 1, 1, double >(); conv< 2, 3, 1, 2, double >(); conv< 2, 3, 1, 3, double >(); conv< 2, 3, 2, 1, double >(); conv< 2, 3, 2, 2, double >(); conv< 2, 3, 2, 3, double >(); conv< 2, 3, 3, 1, double >(); conv< 2, 3, 3, 2, double >(); conv< 2, 3, 3, 3, double >(); }
VP_REAL( all_c31 ) { conv< 3, 1, 1, 1, double >(); conv< 3, 1, 1, 2, double >(); conv< 3, 1, 1, 3, double >(); conv< 3, 1, 2, 1, double >(); conv< 3, 1, 2, 2, double >(); conv< 3, 1, 2, 3, double >(); conv< 3, 1, 3, 1, double >(); conv< 3, 1, 3, 2, double >(); conv< 3, 1, 3, 3, double >(); }
VP_REAL( all_c32 ) { conv< 3, 2, 1, 1, double >(); conv< 3, 2, 1, 2, double >(); conv< 3, 2, 1, 3, double >(); conv< 3, 2, 2, 1, double >(); conv< 3, 2, 2, 2, double >(); conv< 3, 2, 2, 3, double >(); conv< 3, 2, 3, 1, double >(); conv< 3, 2, 3, 2, double >(); conv< 3, 2, 3, 3, double >(); }
VP_REAL( all_c33 ) { conv< 3, 3, 1, 1, double >(); conv< 3, 3, 1, 2, double >(); conv< 3, 3, 1, 3, double >(); conv< 3, 3, 2, 1, double >(); conv< 3, 3, 2, 2, double >(); conv< 3, 3, 2, 3, double >(); conv< 3, 3, 3, 1, double >(); conv< 3, 3, 3, 2, double >(); conv< 3, 3, 3, 3, double >(); }

// infinities, NaN and signed zeros
VP_FP( sp_c22_12f ) { vp::Special on; conv< 2, 2, 1, 2, float >(); }
VP_FP( sp_c31_31d ) { vp::Special on; conv< 3, 1, 3, 1, double >(); }
VP_FP( sp_c33_33f ) { vp::Special on; conv< 3, 3, 3, 3, float >(); }
VP_FP( sp_self22f ) { vp::Special on; self< 2, 2, float >(); }
