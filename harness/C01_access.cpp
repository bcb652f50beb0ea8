// element addressing: every accessor of a matrix/vector designates the column-major element, reads and writes
//@ variant release -DNDEBUG
#include "vu.h"
using namespace vmml;

template< size_t M, size_t N, class T > static void mat_access()
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matany( m, a, "m" );
    const Matrix< M, N, T >& cm = m;
    const size_t r = vp::in< uint64_t >( "r" ), c = vp::in< uint64_t >( "c" );
    vp::assume( r < M && c < N );
    const T v = m.array[ c * M + r ];
    vp::eq( m( r, c ), v, "m(r,c)" );
    vp::eq( m.at( r, c ), v, "m.at(r,c)" );
    vp::eq( cm( r, c ), v, "const m(r,c)" );
    vp::eq( cm.at( r, c ), v, "const m.at(r,c)" );
    vp::eq( m[ r ][ c ], v, "m[r][c]" );
    vp::eq( m[ int( r ) ][ c ], v, "m[int r][c]" );
    typename Matrix< M, N, T >::row_accessor ra = m[ r ];
    const typename Matrix< M, N, T >::row_accessor cra = m[ r ];
    vp::eq( ra[ c ], v, "row accessor" );
    vp::eq( cra[ c ], v, "const row accessor" );
    vp::eq( *( m.begin() + ( c * M + r )), v, "begin() + index" );
    vp::eq( *( cm.begin() + ( c * M + r )), v, "const begin() + index" );
    T* p = m;
    vp::eq( p[ c * M + r ], v, "conversion to T*" );
    const T* cp = cm;
    vp::check( cp == m.array, "conversion to const T*" );
    vp::check( m.end() - m.begin() == long( M * N ), "end() - begin()" );
    vp::check( cm.end() - cm.begin() == long( M * N ), "const end() - begin()" );
    vp::check( m.size() == M * N && m.get_number_of_rows() == M && m.get_number_of_columns() == N, "sizes" );
    vu::same( m, a, "reading leaves the matrix unchanged" );
}

template< size_t M, size_t N, class T > static void mat_write( int how )
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matany( m, a, "m" );
    const size_t r = vp::in< uint64_t >( "r" ), c = vp::in< uint64_t >( "c" );
    vp::assume( r < M && c < N );
    const T v = vp::in< T >( "v" );
    if( how == 0 ) m( r, c ) = v;
    else if( how == 1 ) m.at( r, c ) = v;
    else if( how == 2 ) m[ r ][ c ] = v;
    else m[ int( r ) ][ c ] = v;
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
            vp::eq( m.array[ j * M + i ], ( i == r && j == c ) ? v : a[i][j], "write touches exactly its element",
                    int( i * N + j ));
}

template< size_t M, class T > static void vec_access()
{
    Vector< M, T > v;
    T a[M];
    vu::vecany( v, a, "v" );
    const Vector< M, T >& cv = v;
    const size_t i = vp::in< uint64_t >( "i" );
    vp::assume( i < M );
    const T e = v.array[ i ];
    vp::eq( v( i ), e, "v(i)" );
    vp::eq( v.at( i ), e, "v.at(i)" );
    vp::eq( cv( i ), e, "const v(i)" );
    vp::eq( cv.at( i ), e, "const v.at(i)" );
    vp::eq( v[ i ], e, "v[i]" );
    const T* cp = cv;
    T* wp = v;
    vp::check( cp == v.array && wp == v.array, "conversion to T*" );
    vp::eq( cv[ i ], e, "const v[i]" );
    vp::eq( *( v.begin() + i ), e, "begin() + i" );
    vp::eq( *( cv.begin() + i ), e, "const begin() + i" );
    vp::check( v.end() - v.begin() == long( M ) && cv.end() - cv.begin() == long( M ), "end() - begin()" );
    vp::check( v.size() == M && Vector< M, T >::DIMENSION == M, "size()" );
    vu::same( v, a, "reading leaves the vector unchanged" );
    const T n = vp::in< T >( "n" );
    const uint64_t how = vp_pick( "how", -1, 4 );
    if( how == 0 ) v( i ) = n;
    else if( how == 1 ) v.at( i ) = n;
    else if( how == 2 ) v[ i ] = n;
    else *( v.begin() + i ) = n;
    for( size_t k = 0; k < M; ++k )
        vp::eq( v.array[ k ], k == i ? n : a[ k ], "write touches exactly its element", int( k ));
}

template< size_t M, class T > static void vec_named()
{
    Vector< M, T > v;
    T a[M], n[M];
    vu::vecany( v, a, "v" );
    const Vector< M, T >& c = v;
#define NAMED( k, u, w ) if( M > k ) { vp::eq( v.u(), a[ k % M ], #u ); vp::eq( c.u(), a[ k % M ], "const " #u ); \
                                       vp::eq( v.w(), a[ k % M ], #w ); vp::eq( c.w(), a[ k % M ], "const " #w ); }
    NAMED( 0, x, r ) NAMED( 1, y, g ) NAMED( 2, z, b ) NAMED( 3, w, a )
    for( size_t i = 0; i < M; ++i )
        n[i] = i < 4 ? vp::in< T >( "n", int( i )) : a[i];
    if( vp_bool( "rgba", -1 ))
    {
        v.r() = n[0];
        if( M > 1 ) v.g() = n[ 1 % M ];
        if( M > 2 ) v.b() = n[ 2 % M ];
        if( M > 3 ) v.a() = n[ 3 % M ];
    }
    else
    {
        v.x() = n[0];
        if( M > 1 ) v.y() = n[ 1 % M ];
        if( M > 2 ) v.z() = n[ 2 % M ];
        if( M > 3 ) v.w() = n[ 3 % M ];
    }
    vu::same( v, n, "named writes" );
}

template< size_t M, size_t N, class T > static void get_sub()
{
    Vector< M, T > v;
    T a[M];
    vu::vecany( v, a, "v" );
    const Vector< M, T >& cv = v;
    const size_t o = vp::in< uint64_t >( "o" );
    vp::assume( o <= M - N );
    const size_t k = vp::in< uint64_t >( "k" );
    vp::assume( k < N );
    vp::eq( v.template get_sub_vector< N >( o ).array[ k ], v.array[ o + k ], "get_sub_vector(o)(k)" );
    vp::eq( cv.template get_sub_vector< N >( o ).array[ k ], v.array[ o + k ], "const get_sub_vector(o)(k)" );
    vp::eq( v.template get_sub_vector< N >().array[ k ], a[ k ], "get_sub_vector()(k)" );
    vp::eq( cv.template get_sub_vector< N >().array[ k ], a[ k ], "const get_sub_vector()(k)" );
    const T n = vp::in< T >( "n" );
    v.template get_sub_vector< N >( o ).array[ k ] = n;
    for( size_t i = 0; i < M; ++i )
        vp::eq( v.array[ i ], i == o + k ? n : a[ i ], "write through sub vector", int( i ));
}

// reverse iteration visits the elements back to front
template< class C, size_t K, class T > static void reverse_order( C& m )
{
    T a[K];
    for( size_t i = 0; i < K; ++i ) m.array[i] = a[i] = vp::in< T >( "m", int( i ));
    const C& cm = m;
    size_t k = 0;
    for( typename C::reverse_iterator it = m.rbegin(); it != m.rend() && k < K + 1; ++it, ++k )
    {
        vp::check( k < K, "rend() reached after all elements" );
        vp::eq( *it, a[ K - 1 - k ], "rbegin..rend order", int( k ));
    }
    vp::check( k == K, "rbegin..rend visits every element" );
    k = 0;
    for( typename C::const_reverse_iterator it = cm.rbegin(); it != cm.rend() && k < K + 1; ++it, ++k )
    {
        vp::check( k < K, "const rend() reached after all elements" );
        vp::eq( *it, a[ K - 1 - k ], "const rbegin..rend order", int( k ));
    }
    vp::check( k == K, "const rbegin..rend visits every element" );
    k = 0;
    for( typename C::iterator it = m.begin(); it != m.end(); ++it, ++k )
        vp::eq( *it, a[ k ], "begin..end order", int( k ));
    vp::check( k == K, "begin..end visits every element" );
}

// x(), y(), z() of a 4x4 matrix are the translation
VP_FP( mat4_xyz )
{
    Matrix< 4, 4, float > m;
    float a[4][4], n[3];
    vu::matany( m, a, "m" );
    vp::eq( m.x(), a[0][3], "x" );
    vp::eq( m.y(), a[1][3], "y" );
    vp::eq( m.z(), a[2][3], "z" );
    for( int i = 0; i < 3; ++i ) a[i][3] = n[i] = vp_f32( "n", i );
    m.x() = n[0]; m.y() = n[1]; m.z() = n[2];
    vu::same( m, a, "x,y,z writes" );
}

VP_FP( m44f ) { mat_access< 4, 4, float >(); }
VP_FP( m23d ) { mat_access< 2, 3, double >(); }
VP_FP( m32i ) { mat_access< 3, 2, int >(); }
VP_FP( m15b ) { mat_access< 1, 5, uint8_t >(); }
VP_FP( m51f ) { mat_access< 5, 1, float >(); }
VP_FP( w44f ) { mat_write< 4, 4, float >( int( vp_pick( "how", -1, 4 ))); }
VP_FP( w23d ) { mat_write< 2, 3, double >( int( vp_pick( "how", -1, 4 ))); }
VP_FP( w32i ) { mat_write< 3, 2, int >( int( vp_pick( "how", -1, 4 ))); }
VP_FP( m67f ) { mat_access< 6, 7, float >(); }
VPT_FP( w85d ) { mat_write< 8, 5, double >( int( vp_pick( "how", -1, 4 ))); }
VP_FP( v2i ) { vec_access< 2, int >(); }
VP_FP( v3d ) { vec_access< 3, double >(); }
VP_FP( v4f ) { vec_access< 4, float >(); }
VP_FP( v5b ) { vec_access< 5, uint8_t >(); }
VP_FP( v1f ) { vec_access< 1, float >(); }
VP_FP( v17f ) { vec_access< 17, float >(); }
VP_FP( named_f ) { vec_named< 4, float >(); }
VP_FP( named_b ) { vec_named< 4, uint8_t >(); }
VP_FP( sub43 ) { get_sub< 4, 3, float >(); }
VP_FP( sub52 ) { get_sub< 5, 2, int >(); }
VP_FP( sub33 ) { get_sub< 3, 3, double >(); }
VP_FP( rev_v3f ) { Vector< 3, float > v; reverse_order< Vector< 3, float >, 3, float >( v ); }
VP_FP( rev_v5i ) { Vector< 5, int > v; reverse_order< Vector< 5, int >, 5, int >( v ); }
VP_FP( rev_m23d ) { Matrix< 2, 3, double > v; reverse_order< Matrix< 2, 3, double >, 6, double >( v ); }
VP_FP( rev_m44f ) { Matrix< 4, 4, float > v; reverse_order< Matrix< 4, 4, float >, 16, float >( v ); }
VPT_FP( m910f ) { mat_access< 9, 10, float >(); }
VPT_FP( v33f ) { vec_access< 33, float >(); }
VP_FP( named1d ) { vec_named< 1, double >(); }
VP_FP( named2f ) { vec_named< 2, float >(); }
VP_FP( named3i ) { vec_named< 3, int >(); }
VP_FP( named5f ) { vec_named< 5, float >(); }
VP_FP( named7d ) { vec_named< 7, double >(); }
VP_FP( m11f ) { mat_access< 1, 1, float >(); }
VP_FP( m33d ) { mat_access< 3, 3, double >(); }
VP_FP( m24f ) { mat_access< 2, 4, float >(); }
VP_FP( m41i ) { mat_access< 4, 1, int >(); }
VP_FP( m43f ) { mat_access< 4, 3, float >(); }
VP_FP( w12f ) { mat_write< 1, 2, float >( int( vp_pick( "how", -1, 4 ))); }
VP_FP( w34f ) { mat_write< 3, 4, float >( int( vp_pick( "how", -1, 4 ))); }
VP_FP( named4d ) { vec_named< 4, double >(); }
VP_FP( sub42d ) { get_sub< 4, 2, double >(); }
VP_FP( sub32f ) { get_sub< 3, 2, float >(); }
VP_FP( sub22i ) { get_sub< 2, 2, int >(); }
VP_FP( rev_v4d ) { Vector< 4, double > v; reverse_order< Vector< 4, double >, 4, double >( v ); }
VP_FP( w33d ) { mat_write< 3, 3, double >( int( vp_pick( "how", -1, 4 ))); }
VP_FP( w44i ) { mat_write< 4, 4, int >( int( vp_pick( "how", -1, 4 ))); }
VP_FP( m44d ) { mat_access< 4, 4, double >(); }
VP_FP( v4d ) { vec_access< 4, double >(); }
VP_FP( v2d ) { vec_access< 2, double >(); }
