// bounds safety of the checked accessors (VMMLIB_SAFE_ACCESSORS, the debug configuration): for every 64-bit index
// the call throws exactly when the element does not exist, and never touches memory outside the object.
#include "vu.h"
#include <vector>
using namespace vmml;
#ifndef VMMLIB_SAFE_ACCESSORS
#error debug configuration expected
#endif

template< size_t M, size_t N, class T > static void mat_idx()
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matany( m, a, "m" );
    const Matrix< M, N, T >& cm = m;
    const size_t r = vp::in< uint64_t >( "r" ), c = vp::in< uint64_t >( "c" );
    const bool inside = r < M && c < N;
    const T n = vp::in< T >( "n" );
    bool thrown;
    T got = T();
    const uint64_t how = vp_pick( "how", -1, 8 );
    switch( how )
    {
      case 0: VP_THROWS( thrown, got = m( r, c )); break;
      case 1: VP_THROWS( thrown, got = m.at( r, c )); break;
      case 2: VP_THROWS( thrown, got = cm( r, c )); break;
      case 3: VP_THROWS( thrown, got = cm.at( r, c )); break;
      case 4: VP_THROWS( thrown, got = m[ r ][ c ] ); break;
      case 5: VP_THROWS( thrown, m( r, c ) = n ); break;
      case 6: VP_THROWS( thrown, m.at( r, c ) = n ); break;
      default: VP_THROWS( thrown, m[ r ][ c ] = n ); break;
    }
    vp::check( thrown == !inside, "throws exactly when (row, col) does not exist" );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            const bool here = how >= 5 && i == r && j == c;
            vp::eq( m.array[ j * M + i ], here ? n : a[i][j], "no other element changes", int( i * N + j ));
        }
    if( how < 5 && inside )
        vp::eq( got, m.array[ c * M + r ], "the element read" );
}

template< size_t M, size_t N, class T > static void mat_int_idx()
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matany( m, a, "m" );
    const int r = vp::in< int >( "r" );
    const size_t c = vp::in< uint64_t >( "c" );
    bool thrown;
    T got = T();
    VP_THROWS( thrown, got = m[ r ][ c ] );
    vp::check( thrown == !( r >= 0 && size_t( r ) < M && c < N ), "m[int][c] throws exactly when the element does not exist" );
    typename Matrix< M, N, T >::row_accessor ra = m[ 0 ];
    const typename Matrix< M, N, T >::row_accessor cra = m[ M - 1 ];
    VP_THROWS( thrown, got = ra[ c ] );
    vp::check( thrown == !( c < N ), "row accessor throws exactly when the column does not exist" );
    VP_THROWS( thrown, got = cra[ c ] );
    vp::check( thrown == !( c < N ), "const row accessor throws exactly when the column does not exist" );
    if( c < N )
        vp::eq( got, m.array[ c * M + M - 1 ], "the element read by a const row accessor" );
    bool rowthrown;
    VP_THROWS( rowthrown, m[ r ] );
    vp::check( rowthrown == !( r >= 0 && size_t( r ) < M ), "m[int] throws exactly when the row does not exist" );
}

template< size_t M, class T > static void vec_idx()
{
    Vector< M, T > v;
    T a[M];
    vu::vecany( v, a, "v" );
    const Vector< M, T >& cv = v;
    const size_t i = vp::in< uint64_t >( "i" );
    const T n = vp::in< T >( "n" );
    bool thrown;
    T got = T();
    const uint64_t how = vp_pick( "how", -1, 6 );
    switch( how )
    {
      case 0: VP_THROWS( thrown, got = v( i )); break;
      case 1: VP_THROWS( thrown, got = v.at( i )); break;
      case 2: VP_THROWS( thrown, got = cv( i )); break;
      case 3: VP_THROWS( thrown, got = cv.at( i )); break;
      case 4: VP_THROWS( thrown, v( i ) = n ); break;
      default: VP_THROWS( thrown, v.at( i ) = n ); break;
    }
    vp::check( thrown == !( i < M ), "throws exactly when the component does not exist" );
    for( size_t k = 0; k < M; ++k )
        vp::eq( v.array[ k ], how >= 4 && k == i ? n : a[ k ], "no other component changes", int( k ));
    if( how < 4 && i < M )
        vp::eq( got, v.array[ i ], "the component read" );
}

// whole rows / columns
template< size_t M, size_t N, class T > static void row_col( bool row )
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matany( m, a, "m" );
    const size_t i = vp::in< uint64_t >( "i" );
    const bool inside = i < ( row ? M : N );
    bool thrown;
    const uint64_t how = vp_pick( "how", -1, 5 );
    Vector< N, T > rv; Vector< M, T > cv;
    Matrix< 1, N, T > rm; Matrix< M, 1, T > cmx;
    T rn[N], cn[M];
    if( how >= 3 )
    {
        for( size_t k = 0; k < N; ++k ) rv.array[k] = rm.array[k] = rn[k] = vp::in< T >( "rn", int( k ));
        for( size_t k = 0; k < M; ++k ) cv.array[k] = cmx.array[k] = cn[k] = vp::in< T >( "cn", int( k ));
    }
    if( row )
        switch( how )
        {
          case 0: VP_THROWS( thrown, rv = m.get_row( i )); break;
          case 1: VP_THROWS( thrown, m.get_row( i, rv )); break;
          case 2: VP_THROWS( thrown, m.get_row( i, rm )); break;
          case 3: VP_THROWS( thrown, m.set_row( i, rv )); break;
          default: VP_THROWS( thrown, m.set_row( i, rm )); break;
        }
    else
        switch( how )
        {
          case 0: VP_THROWS( thrown, cv = m.get_column( i )); break;
          case 1: VP_THROWS( thrown, m.get_column( i, cv )); break;
          case 2: VP_THROWS( thrown, m.get_column( i, cmx )); break;
          case 3: VP_THROWS( thrown, m.set_column( i, cv )); break;
          default: VP_THROWS( thrown, m.set_column( i, cmx )); break;
        }
    vp::check( thrown == !inside, "throws exactly when the row / column does not exist" );
    for( size_t r = 0; r < M; ++r )
        for( size_t c = 0; c < N; ++c )
        {
            const bool here = how >= 3 && inside && ( row ? r == i : c == i );
            vp::eq( m.array[ c * M + r ], here ? ( row ? rn[c] : cn[r] ) : a[r][c], "no other element changes",
                    int( r * N + c ));
        }
}

// sub matrices
template< size_t M, size_t N, size_t O, size_t P, class T > static void sub()
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matany( m, a, "m" );
    const size_t r = vp::in< uint64_t >( "r" ), c = vp::in< uint64_t >( "c" );
    const bool inside = r <= M - O && c <= N - P;
    Matrix< O, P, T > s;
    bool thrown;
    const uint64_t how = vp_pick( "how", -1, 3 );
    if( how == 0 )
        VP_THROWS( thrown, m.get_sub_matrix( s, r, c ));
    else if( how == 1 )
        VP_THROWS( thrown, ( s = m.template get_sub_matrix< O, P >( r, c )));
    else
        VP_THROWS( thrown, m.set_sub_matrix( s, r, c ));
    vp::check( thrown == !inside, "throws exactly when the sub matrix does not fit" );
    if( how < 2 )
        vu::same( m, a, "reading a sub matrix leaves the matrix unchanged" );
}

template< size_t M, class T > static void minor_idx()
{
    Matrix< M, M, T > m;
    T a[M][M];
    vu::matany( m, a, "m" );
    const size_t r = vp::in< uint64_t >( "r" ), c = vp::in< uint64_t >( "c" );
    Matrix< M - 1, M - 1, T > s;
    bool thrown;
    VP_THROWS( thrown, m.get_minor( s, r, c ));
    vp::check( thrown == !( r < M && c < M ), "get_minor throws exactly when the row or column does not exist" );
}

// assignment from a std::vector that is too short
template< size_t M, size_t N, class T > static void from_stdvector()
{
    const size_t k = vp_pick( "k", -1, M * N + 3 );
    std::vector< T > d( k );
    for( size_t i = 0; i < k; ++i ) d[i] = vp::in< T >( "d", int( i ));
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matany( m, a, "m" );
    bool thrown;
    VP_THROWS( thrown, m = d );
    vp::check( thrown == ( k < M * N ), "assignment from std::vector throws exactly when it is too short" );
    for( size_t r = 0; r < M; ++r )
        for( size_t c = 0; c < N; ++c )
            vp::eq( m.array[ c * M + r ], thrown ? a[r][c] : d[ r * N + c ], "elements taken row by row", int( r * N + c ));
}

//@ opt idx prio=2
VP_FP( idx44f ) { mat_idx< 4, 4, float >(); }
VP_FP( idx23d ) { mat_idx< 2, 3, double >(); }
VP_FP( idx31i ) { mat_idx< 3, 1, int >(); }
VP_FP( int44f ) { mat_int_idx< 4, 4, float >(); }
VP_FP( int23b ) { mat_int_idx< 2, 3, uint8_t >(); }
VP_FP( vidx1f ) { vec_idx< 1, float >(); }
VP_FP( vidx3d ) { vec_idx< 3, double >(); }
VP_FP( vidx4b ) { vec_idx< 4, uint8_t >(); }
VP_FP( row44f ) { row_col< 4, 4, float >( true ); }
VP_FP( col44f ) { row_col< 4, 4, float >( false ); }
VP_FP( row23d ) { row_col< 2, 3, double >( true ); }
VP_FP( col23d ) { row_col< 2, 3, double >( false ); }
VP_FP( row32i ) { row_col< 3, 2, int >( true ); }
VP_FP( col32i ) { row_col< 3, 2, int >( false ); }
VP_FP( sub44_22 ) { sub< 4, 4, 2, 2, float >(); }
VP_FP( sub34_23 ) { sub< 3, 4, 2, 3, double >(); }
VP_FP( sub33_33 ) { sub< 3, 3, 3, 3, float >(); }
VP_FP( minor3 ) { minor_idx< 3, int >(); }
VP_FP( minor2 ) { minor_idx< 2, int >(); }
VP_FP( stdvec23 ) { from_stdvector< 2, 3, float >(); }
VPT_FP( idx67f ) { mat_idx< 6, 7, float >(); }
VP_FP( row65f ) { row_col< 6, 5, float >( true ); }
VP_FP( col65f ) { row_col< 6, 5, float >( false ); }
VP_FP( sub65_32 ) { sub< 6, 5, 3, 2, float >(); }
VP_FP( minor4 ) { minor_idx< 4, float >(); }
VP_FP( idx14f ) { mat_idx< 1, 4, float >(); }
VP_FP( idx43f ) { mat_idx< 4, 3, float >(); }
VP_FP( vidx2i ) { vec_idx< 2, int >(); }
VP_FP( vidx5d ) { vec_idx< 5, double >(); }
VP_FP( sub43_12 ) { sub< 4, 3, 1, 2, float >(); }
VP_FP( sub25_13 ) { sub< 2, 5, 1, 3, int >(); }
VP_FP( row13f ) { row_col< 1, 3, float >( true ); }
VP_FP( col13f ) { row_col< 1, 3, float >( false ); }
VP_FP( row31f ) { row_col< 3, 1, float >( true ); }
VP_FP( col31f ) { row_col< 3, 1, float >( false ); }
VP_FP( row24f ) { row_col< 2, 4, float >( true ); }
VP_FP( col24f ) { row_col< 2, 4, float >( false ); }
