// determinant, minors, cofactors, adjugate, definiteness
//@ variant release -DNDEBUG
#include "vu.h"
using namespace vmml;

template< size_t N > struct Det
{
    template< class T > static T of( const T (&a)[N][N] )
    {
        T r = 0;
        for( size_t c = 0; c < N; ++c )
        {
            T m[N - 1][N - 1];
            for( size_t i = 1; i < N; ++i )
                for( size_t j = 0, k = 0; j < N; ++j )
                    if( j != c ) m[i - 1][k++] = a[i][j];
            const T t = a[0][c] * Det< N - 1 >::of( m );
            r += ( c & 1 ) ? -t : t;
        }
        return r;
    }
};
template<> struct Det< 1 > { template< class T > static T of( const T (&a)[1][1] ) { return a[0][0]; } };

template< class T > static typename std::enable_if< std::is_integral< T >::value >::type small( T a )
{ vp::assume( a <= T( 90 )); vp::assume( a >= T( -90 )); }
template< class T > static typename std::enable_if< !std::is_integral< T >::value >::type small( T ) {}

template< size_t N, class T > static void det()
{
    Matrix< N, N, T > m;
    T a[N][N];
    vu::mat( m, a, "a" );
    for( size_t i = 0; i < N; ++i ) for( size_t j = 0; j < N; ++j ) small( a[i][j] );
    vp::eq( m.det(), Det< N >::of( a ), "det() is the Leibniz determinant" );
    vp::eq( compute_determinant( m ), Det< N >::of( a ), "compute_determinant() is the Leibniz determinant" );
    vu::same( m, a, "det() leaves the matrix unchanged" );
}

template< size_t N, class T > static void minors()
{
    Matrix< N, N, T > m, cof, adj;
    Matrix< N - 1, N - 1, T > mi;
    T a[N][N], e[N][N], et[N][N];
    vu::mat( m, a, "a" );
    for( size_t r = 0; r < N; ++r )
        for( size_t c = 0; c < N; ++c )
        {
            small( a[r][c] );
            T s[N - 1][N - 1];
            for( size_t i = 0; i + 1 < N; ++i )
                for( size_t j = 0; j + 1 < N; ++j )
                    s[i][j] = a[i < r ? i : i + 1][j < c ? j : j + 1];
            const T d = Det< N - 1 >::of( s );
            vp::eq( m.get_minor( mi, r, c ), d, "get_minor() returns the determinant of the minor", int( r * N + c ));
            vu::same( mi, s, "get_minor() cuts the row and the column" );
            e[r][c] = et[c][r] = ( r + c ) & 1 ? -d : d;
        }
    m.get_cofactors( cof );
    vu::same( cof, e, "get_cofactors()" );
    m.get_adjugate( adj );
    vu::same( adj, et, "get_adjugate() is the transposed cofactor matrix" );
    vu::same( m, a, "minors leave the matrix unchanged" );
}

template< class T, size_t N > static void ident()
{
    // m * adj( m ) == det( m ) * I == adj( m ) * m
    Matrix< N, N, T > m, adj;
    T a[N][N];
    vu::mat( m, a, "a" );
    m.get_adjugate( adj );
    const T d = m.det();
    for( size_t i = 0; i < N; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            T l = 0, r = 0;
            for( size_t k = 0; k < N; ++k )
            {
                l += a[i][k] * adj.array[ j * N + k ];
                r += adj.array[ k * N + i ] * a[k][j];
            }
            vp::eq( l, i == j ? d : T( 0 ), "m * adjugate == det * I", int( i * N + j ));
            vp::eq( r, i == j ? d : T( 0 ), "adjugate * m == det * I", int( i * N + j ));
        }
}

template< class T > static void posdef( bool deflt )
{
    Matrix< 3, 3, T > m;
    T a[3][3];
    vu::mat( m, a, "a" );
    T lim = T( -1e-12 );
    bool got;
    if( deflt )
        got = is_positive_definite( m );
    else
    {
        lim = vp::inf_< T >( "limit" );
        got = is_positive_definite( m, lim );
    }
    const T d1 = a[0][0], d2 = a[0][0] * a[1][1] - a[0][1] * a[1][0], d3 = Det< 3 >::of( a );
    vp::check( got == ( d1 >= lim && d2 >= lim && d3 >= lim ),
               "is_positive_definite: all leading principal minors reach the limit" );
}

VP_REAL( det1d ) { det< 1, double >(); }
VP_REAL( det2f ) { det< 2, float >(); }
VP_REAL( det3f ) { det< 3, float >(); }
VP_REAL( det4f ) { det< 4, float >(); }
VP_REAL( det2d ) { det< 2, double >(); }
VP_REAL( det3d ) { det< 3, double >(); }
VP_REAL( det4d ) { det< 4, double >(); }
VP_REAL( det3i ) { det< 3, int >(); }
VP_REAL( minors2d ) { minors< 2, double >(); }
VP_REAL( minors3f ) { minors< 3, float >(); }
VP_REAL( minors4d ) { minors< 4, double >(); }
VP_REAL( minors5d ) { minors< 5, double >(); }
VP_REAL( ident2f ) { ident< float, 2 >(); }
VP_REAL( ident3d ) { ident< double, 3 >(); }
VP_REAL( ident4f ) { ident< float, 4 >(); }
VP_REAL( posdefd ) { posdef< double >( true ); }
VP_REAL( posdeff ) { posdef< float >( false ); }
