// rows, columns, sub matrices, transpose, direct sum, diagonal: the parts go exactly where they belong
//@ variant release -DNDEBUG
#include "vu.h"
using namespace vmml;

template< size_t M, size_t N, class T > static void rows()
{
    Matrix< M, N, T > m;
    T a[M][N], n[N];
    vu::matany( m, a, "m" );
    const size_t i = vp::in< uint64_t >( "i" );
    vp::assume( i < M );
    const Vector< N, T > r1 = m.get_row( i );
    Vector< N, T > r2, nv;
    Matrix< 1, N, T > r3, nm;
    m.get_row( i, r2 );
    m.get_row( i, r3 );
    for( size_t c = 0; c < N; ++c )
    {
        const T e = m.array[ c * M + i ];
        vp::eq( r1.array[c], e, "get_row( i )", int( c ));
        vp::eq( r2.array[c], e, "get_row( i, vector )", int( c ));
        vp::eq( r3.array[c], e, "get_row( i, matrix )", int( c ));
        nv.array[c] = nm.array[c] = n[c] = vp::in< T >( "n", int( c ));
    }
    vu::same( m, a, "get_row leaves the matrix unchanged" );
    if( vp_bool( "how", -1 )) m.set_row( i, nv ); else m.set_row( i, nm );
    for( size_t r = 0; r < M; ++r )
        for( size_t c = 0; c < N; ++c )
            vp::eq( m.array[ c * M + r ], r == i ? n[c] : a[r][c], "set_row replaces exactly row i", int( r * N + c ));
}

template< size_t M, size_t N, class T > static void cols()
{
    Matrix< M, N, T > m;
    T a[M][N], n[M];
    vu::matany( m, a, "m" );
    const size_t i = vp::in< uint64_t >( "i" );
    vp::assume( i < N );
    const Vector< M, T > r1 = m.get_column( i );
    Vector< M, T > r2, nv;
    Matrix< M, 1, T > r3, nm;
    m.get_column( i, r2 );
    m.get_column( i, r3 );
    for( size_t r = 0; r < M; ++r )
    {
        const T e = m.array[ i * M + r ];
        vp::eq( r1.array[r], e, "get_column( i )", int( r ));
        vp::eq( r2.array[r], e, "get_column( i, vector )", int( r ));
        vp::eq( r3.array[r], e, "get_column( i, matrix )", int( r ));
        nv.array[r] = nm.array[r] = n[r] = vp::in< T >( "n", int( r ));
    }
    vu::same( m, a, "get_column leaves the matrix unchanged" );
    if( vp_bool( "how", -1 )) m.set_column( i, nv ); else m.set_column( i, nm );
    for( size_t r = 0; r < M; ++r )
        for( size_t c = 0; c < N; ++c )
            vp::eq( m.array[ c * M + r ], c == i ? n[r] : a[r][c], "set_column replaces exactly column i", int( r * N + c ));
}

template< size_t M, size_t N, size_t O, size_t P, class T > static void sub()
{
    Matrix< M, N, T > m;
    T a[M][N], b[O][P];
    vu::matany( m, a, "m" );
    const size_t r = vp::in< uint64_t >( "r" ), c = vp::in< uint64_t >( "c" );
    vp::assume( r <= M - O && c <= N - P );
    const Matrix< O, P, T > s1 = m.template get_sub_matrix< O, P >( r, c );
    Matrix< O, P, T > s2, s3, n;
    m.get_sub_matrix( s2, r, c );
    m.get_sub_matrix( s3 );
    for( size_t i = 0; i < O; ++i )
        for( size_t j = 0; j < P; ++j )
        {
            const T e = m.array[ ( c + j ) * M + r + i ];
            vp::eq( s1.array[ j * O + i ], e, "get_sub_matrix( r, c )", int( i * P + j ));
            vp::eq( s2.array[ j * O + i ], e, "get_sub_matrix( result, r, c )", int( i * P + j ));
            vp::eq( s3.array[ j * O + i ], a[i][j], "get_sub_matrix( result )", int( i * P + j ));
        }
    vu::same( m, a, "get_sub_matrix leaves the matrix unchanged" );
    vu::matany( n, b, "n" );
    Matrix< M, N, T > first( m );
    m.set_sub_matrix( n, r, c );
    first.set_sub_matrix( n );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
            vp::eq( first.array[ j * M + i ], i < O && j < P ? b[ i < O ? i : 0 ][ j < P ? j : 0 ] : a[i][j],
                    "set_sub_matrix without offsets replaces the first block", int( i * N + j ));
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            const bool in = i >= r && i < r + O && j >= c && j < c + P;
            const T e = in ? n.array[ ( j - c ) * O + i - r ] : a[i][j];
            vp::eq( m.array[ j * M + i ], e, "set_sub_matrix replaces exactly the block", int( i * N + j ));
        }
}

template< size_t M, size_t N, class T > static void trans()
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matany( m, a, "m" );
    const Matrix< N, M, T > t1 = transpose( m );
    Matrix< N, M, T > t2;
    m.transpose_to( t2 );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            vp::eq( t1.array[ i * N + j ], a[i][j], "transpose( m )", int( i * N + j ));
            vp::eq( t2.array[ i * N + j ], a[i][j], "transpose_to", int( i * N + j ));
        }
    vu::same( m, a, "transpose leaves the matrix unchanged" );
    vu::same( transpose( t1 ), a, "transpose twice" );
}

template< size_t O, size_t P, size_t Q, size_t R, class T > static void dsum()
{
    Matrix< O, P, T > u;
    Matrix< Q, R, T > l;
    T a[O][P], b[Q][R], o[O + Q][P + R];
    vu::matany( u, a, "u" );
    vu::matany( l, b, "l" );
    Matrix< O + Q, P + R, T > m;
    vu::matany( m, o, "m" );
    m.direct_sum( u, l );
    for( size_t i = 0; i < O + Q; ++i )
        for( size_t j = 0; j < P + R; ++j )
        {
            const T e = i < O && j < P ? a[i][j] : i >= O && j >= P ? b[i - O][j - P] : T( 0 );
            vp::eq( m.array[ j * ( O + Q ) + i ], e, "direct_sum", int( i * ( P + R ) + j ));
        }
}

template< size_t M, class T > static void diagonal()
{
    Matrix< M, M, T > m;
    T o[M][M], d[M];
    Vector< M, T > v;
    vu::matany( m, o, "m" );
    vu::vecany( v, d, "d" );
    m.diag( v );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < M; ++j )
            vp::eq( m.array[ j * M + i ], i == j ? d[i] : T( 0 ), "diag", int( i * M + j ));
}

VP_FP( row44f ) { rows< 4, 4, float >(); }
VP_FP( row23d ) { rows< 2, 3, double >(); }
VP_FP( row31i ) { rows< 3, 1, int >(); }
VP_FP( col44f ) { cols< 4, 4, float >(); }
VP_FP( col23d ) { cols< 2, 3, double >(); }
VP_FP( col14b ) { cols< 1, 4, uint8_t >(); }
VP_FP( sub44_22f ) { sub< 4, 4, 2, 2, float >(); }
VP_FP( sub44_33f ) { sub< 4, 4, 3, 3, float >(); }
VP_FP( sub34_23d ) { sub< 3, 4, 2, 3, double >(); }
VP_FP( sub52_31i ) { sub< 5, 2, 3, 1, int >(); }
VP_FP( tr44f ) { trans< 4, 4, float >(); }
VP_FP( tr23d ) { trans< 2, 3, double >(); }
VP_FP( tr51i ) { trans< 5, 1, int >(); }
VP_FP( tr33b ) { trans< 3, 3, uint8_t >(); }
VP_FP( dsum2233f ) { dsum< 2, 2, 2, 2, float >(); }
VP_FP( dsum1231d ) { dsum< 1, 2, 3, 1, double >(); }
VP_FP( dsum3211i ) { dsum< 3, 2, 1, 1, int >(); }
VP_FP( diag4f ) { diagonal< 4, float >(); }
VP_FP( diag3d ) { diagonal< 3, double >(); }
VP_FP( diag2i ) { diagonal< 2, int >(); }
VP_FP( row67f ) { rows< 6, 7, float >(); }
VP_FP( col76f ) { cols< 7, 6, float >(); }
VPT_FP( sub66_34f ) { sub< 6, 6, 3, 4, float >(); }
VP_FP( tr78f ) { trans< 7, 8, float >(); }
VPT_FP( row910f ) { rows< 9, 10, float >(); }
VPT_FP( tr1211f ) { trans< 12, 11, float >(); }
// all small shapes
VP_FP( all_rows1 ) { rows< 1, 1, float >(); rows< 1, 2, float >(); rows< 1, 3, float >(); rows< 1, 4, float >(); }
VP_FP( all_cols1 ) { cols< 1, 1, float >(); cols< 1, 2, float >(); cols< 1, 3, float >(); cols< 1, 4, float >(); }
VP_FP( all_trans1 ) { trans< 1, 1, float >(); trans< 1, 2, float >(); trans< 1, 3, float >(); trans< 1, 4, float >(); }
VP_FP( all_rows2 ) { rows< 2, 1, float >(); rows< 2, 2, float >(); rows< 2, 3, float >(); rows< 2, 4, float >(); }
VP_FP( all_cols2 ) { cols< 2, 1, float >(); cols< 2, 2, float >(); cols< 2, 3, float >(); cols< 2, 4, float >(); }
VP_FP( all_trans2 ) { trans< 2, 1, float >(); trans< 2, 2, float >(); trans< 2, 3, float >(); trans< 2, 4, float >(); }
VP_FP( all_rows3 ) { rows< 3, 1, float >(); rows< 3, 2, float >(); rows< 3, 3, float >(); rows< 3, 4, float >(); }
VP_FP( all_cols3 ) { cols< 3, 1, float >(); cols< 3, 2, float >(); cols< 3, 3, float >(); cols< 3, 4, float >(); }
VP_FP( all_trans3 ) { trans< 3, 1, float >(); trans< 3, 2, float >(); trans< 3, 3, float >(); trans< 3, 4, float >(); }
VP_FP( all_rows4 ) { rows< 4, 1, float >(); rows< 4, 2, float >(); rows< 4, 3, float >(); rows< 4, 4, float >(); }
VP_FP( all_cols4 ) { cols< 4, 1, float >(); cols< 4, 2, float >(); cols< 4, 3, float >(); cols< 4, 4, float >(); }
VP_FP( all_trans4 ) { trans< 4, 1, float >(); trans< 4, 2, float >(); trans< 4, 3, float >(); trans< 4, 4, float >(); }
VP_FP( dsum1111f ) { dsum< 1, 1, 1, 1, float >(); }
VP_FP( dsum3112f ) { dsum< 3, 1, 1, 2, float >(); }
VP_FP( dsum3122f ) { dsum< 3, 1, 2, 2, float >(); }
VP_FP( dsum1322f ) { dsum< 1, 3, 2, 2, float >(); }
VP_FP( dsum1223f ) { dsum< 1, 2, 2, 3, float >(); }
VP_FP( dsum2311f ) { dsum< 2, 3, 1, 1, float >(); }
VP_FP( dsum2113f ) { dsum< 2, 1, 1, 3, float >(); }
VP_FP( dsum2231f ) { dsum< 2, 2, 3, 1, float >(); }
VP_FP( dsum3321f ) { dsum< 3, 3, 2, 1, float >(); }
VP_FP( dsum1133f ) { dsum< 1, 1, 3, 3, float >(); }
VP_FP( dsum2332f ) { dsum< 2, 3, 3, 2, float >(); }
VP_FP( sub33_11f ) { sub< 3, 3, 1, 1, float >(); }
VP_FP( sub33_13f ) { sub< 3, 3, 1, 3, float >(); }
VP_FP( sub33_31f ) { sub< 3, 3, 3, 1, float >(); }
VP_FP( sub33_22f ) { sub< 3, 3, 2, 2, float >(); }
VP_FP( sub24_22f ) { sub< 2, 4, 2, 2, float >(); }
VP_FP( sub24_13f ) { sub< 2, 4, 1, 3, float >(); }
VP_FP( sub42_22f ) { sub< 4, 2, 2, 2, float >(); }
VP_FP( sub42_31f ) { sub< 4, 2, 3, 1, float >(); }
VP_FP( sub13_12f ) { sub< 1, 3, 1, 2, float >(); }
VP_FP( sub31_21f ) { sub< 3, 1, 2, 1, float >(); }
VP_FP( sub43_33f ) { sub< 4, 3, 3, 3, float >(); }
VP_FP( sub34_24f ) { sub< 3, 4, 2, 4, float >(); }
VP_FP( diag1f ) { diagonal< 1, float >(); }
VP_FP( diag5d ) { diagonal< 5, double >(); }
VP_FP( row44d ) { rows< 4, 4, double >(); }
VP_FP( row33d ) { rows< 3, 3, double >(); }
VP_FP( col44d ) { cols< 4, 4, double >(); }
VP_FP( col33i ) { cols< 3, 3, int >(); }
VP_FP( sub44_33d ) { sub< 4, 4, 3, 3, double >(); }
VP_FP( sub33_22d ) { sub< 3, 3, 2, 2, double >(); }
VP_FP( sub43_22i ) { sub< 4, 3, 2, 2, int >(); }
VP_FP( tr44d ) { trans< 4, 4, double >(); }
VP_FP( tr33d ) { trans< 3, 3, double >(); }
VP_FP( tr22i ) { trans< 2, 2, int >(); }
VP_FP( dsum2222d ) { dsum< 2, 2, 2, 2, double >(); }
VP_FP( dsum2112i ) { dsum< 2, 1, 1, 2, int >(); }
VP_FP( diag4d ) { diagonal< 4, double >(); }
