// products: matrix*matrix, *= (also with itself), matrix*vector, homogeneous transform, tensor, Kronecker,
//@ variant release -DNDEBUG
// Khatri-Rao, covariance
#include "vu.h"
using namespace vmml;

template< class T > static typename std::enable_if< std::is_integral< T >::value >::type small( T a )
{ vp::assume( a <= T( 4000 )); if( std::numeric_limits< T >::is_signed ) vp::assume( a >= T( -4000 )); }
template< class T > static typename std::enable_if< !std::is_integral< T >::value >::type small( T ) {}
template< size_t M, size_t N, class T > static void small( const T (&a)[M][N] )
{ for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) small( a[i][j] ); }
template< size_t M, class T > static void small( const T (&a)[M] )
{ for( size_t i = 0; i < M; ++i ) small( a[i] ); }

template< size_t M, size_t P, size_t N, class T >
static void mul( const T (&a)[M][P], const T (&b)[P][N], T (&e)[M][N] )
{
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            T s = 0;
            for( size_t k = 0; k < P; ++k )
                s += a[i][k] * b[k][j];
            e[i][j] = s;
        }
}

template< size_t M, size_t P, size_t N, class T > static void mm()
{
    Matrix< M, P, T > l;
    Matrix< P, N, T > r;
    Matrix< M, N, T > o;
    T a[M][P], b[P][N], e[M][N], junk[M][N];
    vu::mat( l, a, "a" );
    vu::mat( r, b, "b" );
    vu::mat( o, junk, "old" );
    small( a ); small( b );
    mul( a, b, e );
    o.multiply( l, r );
    vu::same( o, e, "multiply( left, right )" );
    vu::same( l * r, e, "left * right" );
    Matrix< M, N, T > o2( o );
    o2.zero();
    vmml::multiply< M, N, P, T >( l, r, o2 );
    vu::same( o2, e, "multiply( left, right, result )" );
    vu::same( l, a, "left operand unchanged" );
    vu::same( r, b, "right operand unchanged" );
}

template< size_t N, class T > static void meq()
{
    Matrix< N, N, T > m, o;
    T a[N][N], b[N][N], e[N][N];
    vu::mat( m, a, "a" );
    vu::mat( o, b, "b" );
    small( a ); small( b );
    mul( a, b, e );
    m *= o;
    vu::same( m, e, "m *= o" );
    vu::same( o, b, "right operand unchanged" );
    mul( b, b, e );
    o *= o;
    vu::same( o, e, "m *= m is m * m" );
}

template< size_t M, size_t N, class T > static void mv()
{
    Matrix< M, N, T > m;
    Vector< N, T > v;
    T a[M][N], b[N], e[M];
    vu::mat( m, a, "a" );
    vu::vec( v, b, "b" );
    small( a ); small( b );
    for( size_t i = 0; i < M; ++i )
    {
        e[i] = 0;
        for( size_t k = 0; k < N; ++k )
            e[i] += a[i][k] * b[k];
    }
    vu::same( m * v, e, "matrix * vector" );
    vu::same( m, a, "matrix operand unchanged" );
    vu::same( v, b, "vector operand unchanged" );
}

// NxN matrix times (N-1)-vector: w = 1 is appended and the result divided by its w
template< size_t N, class T > static void hom()
{
    Matrix< N, N, T > m;
    Vector< N - 1, T > v;
    T a[N][N], b[N - 1], e[N];
    vu::mat( m, a, "a" );
    vu::vec( v, b, "b" );
    for( size_t i = 0; i < N; ++i )
    {
        e[i] = a[i][N - 1];
        for( size_t k = 0; k + 1 < N; ++k )
            e[i] += a[i][k] * b[k];
    }
    vp::assume( e[N - 1] != T( 0 ));
    const Vector< N - 1, T > r = m * v;
    for( size_t i = 0; i + 1 < N; ++i )
        vp::eq( r.array[i], e[i] / e[N - 1], "homogeneous transform", int( i ));
    vu::same( m, a, "matrix operand unchanged" );
    vu::same( v, b, "vector operand unchanged" );
}

template< size_t N, class T > static void tens()
{
    Matrix< N, N, T > m;
    Vector< N, T > u, v;
    T a[N], b[N], e[N][N], junk[N][N];
    vu::vec( u, a, "u" );
    vu::vec( v, b, "v" );
    vu::mat( m, junk, "old" );
    small( a ); small( b );
    for( size_t i = 0; i < N; ++i )
        for( size_t j = 0; j < N; ++j )
            e[i][j] = b[i] * a[j];
    m.tensor( u, v );
    vu::same( m, e, "tensor( u, v ) is v * transpose( u )" );
}

// tensor( u, v ) of the declared operand sizes M and N: no access outside the operands
template< size_t M, size_t N, class T > static void tens_ns()
{
    Matrix< M, N, T >* m = new Matrix< M, N, T >;
    Vector< M, T >* u = new Vector< M, T >;
    Vector< N, T >* v = new Vector< N, T >;
    T a[M], b[N];
    vu::vec( *u, a, "u" );
    vu::vec( *v, b, "v" );
    m->tensor( *u, *v );
    vu::same( *u, a, "operand u unchanged" );
    vu::same( *v, b, "operand v unchanged" );
    delete m;
    delete u;
    delete v;
}

template< class T > static void tens_hom()
{
    Matrix< 4, 4, T > m;
    Vector< 3, T > u, v;
    T a[3], b[3], e[4][4], junk[4][4];
    vu::vec( u, a, "u" );
    vu::vec( v, b, "v" );
    vu::mat( m, junk, "old" );
    for( size_t i = 0; i < 4; ++i )
        for( size_t j = 0; j < 4; ++j )
            e[i][j] = ( i < 3 ? b[i] : T( 1 )) * ( j < 3 ? a[j] : T( 1 ));
    m.tensor( u, v );
    vu::same( m, e, "tensor of two 3-vectors in a 4x4 matrix, w = 1" );
}

template< size_t M, size_t N, size_t O, size_t P, class T > static void kron()
{
    Matrix< M, N, T > l;
    Matrix< O, P, T > r;
    Matrix< M * O, N * P, T > k;
    T a[M][N], b[O][P], e[M * O][N * P], junk[M * O][N * P];
    vu::mat( l, a, "a" );
    vu::mat( r, b, "b" );
    vu::mat( k, junk, "old" );
    small( a ); small( b );
    for( size_t i = 0; i < M * O; ++i )
        for( size_t j = 0; j < N * P; ++j )
            e[i][j] = a[i / O][j / P] * b[i % O][j % P];
    l.kronecker_product( r, k );
    vu::same( k, e, "Kronecker product" );
    vu::same( l, a, "left operand unchanged" );
    vu::same( r, b, "right operand unchanged" );
}

template< size_t M, size_t N, size_t O, class T > static void khatri()
{
    Matrix< M, N, T > l;
    Matrix< O, N, T > r;
    Matrix< M * O, N, T > k;
    T a[M][N], b[O][N], e[M * O][N], junk[M * O][N];
    vu::mat( l, a, "a" );
    vu::mat( r, b, "b" );
    vu::mat( k, junk, "old" );
    small( a ); small( b );
    for( size_t i = 0; i < M * O; ++i )
        for( size_t j = 0; j < N; ++j )
            e[i][j] = a[i / O][j] * b[i % O][j];
    l.khatri_rao_product( r, k );
    vu::same( k, e, "Khatri-Rao product" );
}

template< size_t M, size_t N, class T > static void cov()
{
    Matrix< M, N, T > m;
    Matrix< M, M, T > c;
    T a[M][N], e[M][M], junk[M][M];
    vu::mat( m, a, "a" );
    vu::mat( c, junk, "old" );
    small( a );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < M; ++j )
        {
            e[i][j] = 0;
            for( size_t k = 0; k < N; ++k )
                e[i][j] += a[i][k] * a[j][k];
        }
    m.symmetric_covariance( c );
    vu::same( c, e, "symmetric_covariance is m * transpose( m )" );
    vu::same( m, a, "matrix unchanged" );
}

VP_REAL( mm222f ) { mm< 2, 2, 2, float >(); }
VP_REAL( mm234d ) { mm< 2, 3, 4, double >(); }
VP_REAL( mm444f ) { mm< 4, 4, 4, float >(); }
VP_REAL( mm333d ) { mm< 3, 3, 3, double >(); }
VP_REAL( mm151d ) { mm< 1, 5, 1, double >(); }
VP_REAL( mm515f ) { mm< 5, 1, 5, float >(); }
VP_REAL( mm322i ) { mm< 3, 2, 2, int >(); }
VP_REAL( meq1d ) { meq< 1, double >(); }
VP_REAL( meq2d ) { meq< 2, double >(); }
VP_REAL( meq3f ) { meq< 3, float >(); }
VP_REAL( meq4d ) { meq< 4, double >(); }
VP_REAL( meq2i ) { meq< 2, int >(); }
VP_REAL( mv22f ) { mv< 2, 2, float >(); }
VP_REAL( mv23d ) { mv< 2, 3, double >(); }
VP_REAL( mv42d ) { mv< 4, 2, double >(); }
VP_REAL( mv44f ) { mv< 4, 4, float >(); }
VP_REAL( mv32i ) { mv< 3, 2, int >(); }
VP_REAL( hom4f ) { hom< 4, float >(); }
VP_REAL( hom4d ) { hom< 4, double >(); }
VP_REAL( hom3d ) { hom< 3, double >(); }
VP_REAL( tens3d ) { tens< 3, double >(); }
VP_REAL( tens4f ) { tens< 4, float >(); }
VP_REAL( tens2i ) { tens< 2, int >(); }
VP_FP( tens23f ) { tens_ns< 2, 3, float >(); }
VP_FP( tens42d ) { tens_ns< 4, 2, double >(); }
VP_REAL( tenshf ) { tens_hom< float >(); }
VP_REAL( tenshd ) { tens_hom< double >(); }
VP_REAL( kron2232d ) { kron< 2, 2, 3, 2, double >(); }
VP_REAL( kron1323f ) { kron< 1, 3, 2, 3, float >(); }
VP_REAL( kron2122i ) { kron< 2, 1, 2, 2, int >(); }
VP_REAL( khatri232d ) { khatri< 2, 3, 2, double >(); }
VP_REAL( khatri323f ) { khatri< 3, 2, 2, float >(); }
VP_REAL( khatri411d ) { khatri< 4, 1, 1, double >(); }
VP_REAL( khatri143i ) { khatri< 1, 4, 3, int >(); }
VP_REAL( kron3212d ) { kron< 3, 2, 1, 2, double >(); }
VP_REAL( kron2331f ) { kron< 2, 3, 3, 1, float >(); }
VP_REAL( kron1212i ) { kron< 1, 2, 1, 2, int >(); }
VP_REAL( mm312d ) { mm< 3, 1, 2, double >(); }
VP_REAL( mm431f ) { mm< 4, 3, 1, float >(); }
VP_REAL( mm142d ) { mm< 1, 4, 2, double >(); }
VP_REAL( mm242f ) { mm< 2, 4, 2, float >(); }
VP_REAL( mv15f ) { mv< 1, 5, float >(); }
VP_REAL( mv51d ) { mv< 5, 1, double >(); }
VP_REAL( mv34d ) { mv< 3, 4, double >(); }
VP_REAL( cov41d ) { cov< 4, 1, double >(); }
VP_REAL( cov14i ) { cov< 1, 4, int >(); }
VP_REAL( khatri324f ) { khatri< 3, 2, 4, float >(); }
VP_REAL( cov23d ) { cov< 2, 3, double >(); }
VP_REAL( cov32f ) { cov< 3, 2, float >(); }
VP_REAL( cov44d ) { cov< 4, 4, double >(); }
VP_REAL( mm678d ) { mm< 6, 7, 8, double >(); }
VP_REAL( meq6d ) { meq< 6, double >(); }
VP_REAL( kron3443d ) { kron< 3, 4, 4, 3, double >(); }
VP_REAL( cov67d ) { cov< 6, 7, double >(); }
VP_REAL( hom6d ) { hom< 6, double >(); }
VPT_REAL( mm91011d ) { mm< 9, 10, 11, double >(); }
VPT_REAL( meq8f ) { meq< 8, float >(); }
// all small shapes
VP_REAL( all_mm11 ) { mm< 1, 1, 1, double >(); mm< 1, 1, 2, double >(); mm< 1, 1, 3, double >(); mm< 1, 1, 4, double >(); }
VP_REAL( all_mm12 ) { mm< 1, 2, 1, double >(); mm< 1, 2, 2, double >(); mm< 1, 2, 3, double >(); mm< 1, 2, 4, double >(); }
VP_REAL( all_mm13 ) { mm< 1, 3, 1, double >(); mm< 1, 3, 2, double >(); mm< 1, 3, 3, double >(); mm< 1, 3, 4, double >(); }
VP_REAL( all_mm21 ) { mm< 2, 1, 1, double >(); mm< 2, 1, 2, double >(); mm< 2, 1, 3, double >(); mm< 2, 1, 4, double >(); }
VP_REAL( all_mm22 ) { mm< 2, 2, 1, double >(); mm< 2, 2, 2, double >(); mm< 2, 2, 3, double >(); mm< 2, 2, 4, double >(); }
VP_REAL( all_mm23 ) { mm< 2, 3, 1, double >(); mm< 2, 3, 2, double >(); mm< 2, 3, 3, double >(); mm< 2, 3, 4, double >(); }
VP_REAL( all_mm31 ) { mm< 3, 1, 1, double >(); mm< 3, 1, 2, double >(); mm< 3, 1, 3, double >(); mm< 3, 1, 4, double >(); }
VP_REAL( all_mm32 ) { mm< 3, 2, 1, double >(); mm< 3, 2, 2, double >(); mm< 3, 2, 3, double >(); mm< 3, 2, 4, double >(); }
VP_REAL( all_mm33 ) { mm< 3, 3, 1, double >(); mm< 3, 3, 2, double >(); mm< 3, 3, 3, double >(); mm< 3, 3, 4, double >(); }
VP_REAL( all_mv1 ) { mv< 1, 1, double >(); mv< 1, 2, double >(); mv< 1, 3, double >(); mv< 1, 4, double >(); }
VP_REAL( all_cov1 ) { cov< 1, 1, double >(); cov< 1, 2, double >(); cov< 1, 3, double >(); }
VP_REAL( all_mv2 ) { mv< 2, 1, double >(); mv< 2, 2, double >(); mv< 2, 3, double >(); mv< 2, 4, double >(); }
VP_REAL( all_cov2 ) { cov< 2, 1, double >(); cov< 2, 2, double >(); cov< 2, 3, double >(); }
VP_REAL( all_mv3 ) { mv< 3, 1, double >(); mv< 3, 2, double >(); mv< 3, 3, double >(); mv< 3, 4, double >(); }
VP_REAL( all_cov3 ) { cov< 3, 1, double >(); cov< 3, 2, double >(); cov< 3, 3, double >(); }
VP_REAL( all_mv4 ) { mv< 4, 1, double >(); mv< 4, 2, double >(); mv< 4, 3, double >(); mv< 4, 4, double >(); }
VP_REAL( all_cov4 ) { cov< 4, 1, double >(); cov< 4, 2, double >(); cov< 4, 3, double >(); }
VP_REAL( all_kron11 ) { kron< 1, 1, 1, 1, double >(); kron< 1, 1, 1, 2, double >(); kron< 1, 1, 1, 3, double >(); kron< 1, 1, 2, 1, double >(); kron< 1, 1, 2, 2, double >(); kron< 1, 1, 2, 3, double >(); kron< 1, 1, 3, 1, double >(); kron< 1, 1, 3, 2, double >(); kron< 1, 1, 3, 3, double >(); }
VP_REAL( all_kron12 ) { kron< 1, 2, 1, 1, double >(); kron< 1, 2, 1, 2, double >(); kron< 1, 2, 1, 3, double >(); kron< 1, 2, 2, 1, double >(); kron< 1, 2, 2, 2, double >(); kron< 1, 2, 2, 3, double >(); kron< 1, 2, 3, 1, double >(); kron< 1, 2, 3, 2, double >(); kron< 1, 2, 3, 3, double >(); }
VP_REAL( all_kron21 ) { kron< 2, 1, 1, 1, double >(); kron< 2, 1, 1, 2, double >(); kron< 2, 1, 1, 3, double >(); kron< 2, 1, 2, 1, double >(); kron< 2, 1, 2, 2, double >(); kron< 2, 1, 2, 3, double >(); kron< 2, 1, 3, 1, double >(); kron< 2, 1, 3, 2, double >(); kron< 2, 1, 3, 3, double >(); }
VP_REAL( all_kron22 ) { kron< 2, 2, 1, 1, double >(); kron< 2, 2, 1, 2, double >(); kron< 2, 2, 1, 3, double >(); kron< 2, 2, 2, 1, double >(); kron< 2, 2, 2, 2, double >(); kron< 2, 2, 2, 3, double >(); kron< 2, 2, 3, 1, double >(); kron< 2, 2, 3, 2, double >(); kron< 2, 2, 3, 3, double >(); }
VP_REAL( all_khatri1 ) { khatri< 1, 1, 1, double >(); khatri< 1, 1, 2, double >(); khatri< 1, 1, 3, double >(); khatri< 1, 2, 1, double >(); khatri< 1, 2, 2, double >(); khatri< 1, 2, 3, double >(); khatri< 1, 3, 1, double >(); khatri< 1, 3, 2, double >(); khatri< 1, 3, 3, double >(); }
VP_REAL( all_khatri2 ) { khatri< 2, 1, 1, double >(); khatri< 2, 1, 2, double >(); khatri< 2, 1, 3, double >(); khatri< 2, 2, 1, double >(); khatri< 2, 2, 2, double >(); khatri< 2, 2, 3, double >(); khatri< 2, 3, 1, double >(); khatri< 2, 3, 2, double >(); khatri< 2, 3, 3, double >(); }
VP_REAL( all_khatri3 ) { khatri< 3, 1, 1, double >(); khatri< 3, 1, 2, double >(); khatri< 3, 1, 3, double >(); khatri< 3, 2, 1, double >(); khatri< 3, 2, 2, double >(); khatri< 3, 2, 3, double >(); khatri< 3, 3, 1, double >(); khatri< 3, 3, 2, double >(); khatri< 3, 3, 3, double >(); }
// infinities, NaN and signed zeros
VP_FP( sp_mm222f ) { vp::Special on; mm< 2, 2, 2, float >(); }
VP_FP( sp_mm132d ) { vp::Special on; mm< 1, 3, 2, double >(); }
VP_FP( sp_meq2f ) { vp::Special on; meq< 2, float >(); }
VP_FP( sp_mv23f ) { vp::Special on; mv< 2, 3, float >(); }
VP_FP( sp_tens2d ) { vp::Special on; tens< 2, double >(); }
VP_FP( sp_kron1222f ) { vp::Special on; kron< 1, 2, 2, 2, float >(); }
VP_FP( sp_khatri222f ) { vp::Special on; khatri< 2, 2, 2, float >(); }
VP_FP( sp_cov22f ) { vp::Special on; cov< 2, 2, float >(); }
VP_FP( sp_mm333f ) { vp::Special on; mm< 3, 3, 3, float >(); }
VP_FP( sp_mm242d ) { vp::Special on; mm< 2, 4, 2, double >(); }
VP_FP( sp_mv44f ) { vp::Special on; mv< 4, 4, float >(); }
VP_FP( sp_meq3d ) { vp::Special on; meq< 3, double >(); }
VPT_FP( sp_mm444f ) { vp::Special on; mm< 4, 4, 4, float >(); }
