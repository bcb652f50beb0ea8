// view frustum culling: spheres and boxes against the six half spaces given by a projection matrix or by corner points
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/frustum.hpp>
using namespace vmml;

// the planes a x + b y + c z + d >= 0 of clip space -w <= x, y, z <= w
template< class T > static void planes( const T (&m)[4][4], T (&p)[6][4] )
{
    for( int i = 0; i < 3; ++i )
        for( int j = 0; j < 4; ++j )
        {
            p[2 * i][j] = m[3][j] + m[i][j];
            p[2 * i + 1][j] = m[3][j] - m[i][j];
        }
}
// a sphere is outside when it lies behind one plane, inside when it lies in front of all of them
template< class T > static void judge_sphere( const FrustumCuller< T >& f, const T (&p)[6][4], const T (&s)[4], const char* l )
{
    bool none = false, full = true;
    for( int i = 0; i < 6; ++i )
    {
        const T d = p[i][0] * s[0] + p[i][1] * s[1] + p[i][2] * s[2] + p[i][3];
        const T len = std::sqrt( p[i][0] * p[i][0] + p[i][1] * p[i][1] + p[i][2] * p[i][2] );
        none = none | ( d <= -s[3] * len );
        full = full & ( d >= s[3] * len );
    }
    const Vector< 4, T > v( s[0], s[1], s[2], s[3] );
    const Visibility x = f.test_sphere( v );
    const Visibility w = none ? VISIBILITY_NONE : full ? VISIBILITY_FULL : VISIBILITY_PARTIAL;
    vp::check( x == w, l );
    vu::same( v, s, "sphere unchanged" );
}
// The box spanned by two values per axis ( in any order ): outside when all corners are behind one plane, inside when all
// corners are in front of all planes.  pos[i][k]: the k-th normal component of plane i is known not to be negative.
template< class T > static void judge_box( const FrustumCuller< T >& f, const T (&p)[6][4], const bool (&pos)[6][3], unsigned cut, int sw,
                                               const char* l )
{
    T b[3], d[3];
    for( int i = 0; i < 3; ++i )
    {
        b[i] = vp::inf_< T >( "b", i );
        d[i] = vp::inf_< T >( "d", i );
        vp::assume( d[i] >= T( 0 ));
    }
    bool none = false, full = true;
    for( int i = 0; i < 6; ++i )
    {
        T lo = p[i][3], hi = p[i][3];
        for( int k = 0; k < 3; ++k )
        {
            lo += p[i][k] * ( pos[i][k] ? b[k] : b[k] + d[k] );
            hi += p[i][k] * ( pos[i][k] ? b[k] + d[k] : b[k] );
        }
        if( !( cut & ( 1u << ( i / 2 ))))
        {
            vp::assume( lo >= T( 0 ));
            continue;
        }
        none = none | (( hi <= T( 0 )) & ( lo < T( 0 )));
        full = full & ( lo >= T( 0 ));
    }
    const int swap = sw < 0 ? vp_pick( "swap", -1, 8 ) : sw;
    const Vector< 2, T > x( swap & 1 ? b[0] + d[0] : b[0], swap & 1 ? b[0] : b[0] + d[0] );
    const Vector< 2, T > y( swap & 2 ? b[1] + d[1] : b[1], swap & 2 ? b[1] : b[1] + d[1] );
    const Vector< 2, T > z( swap & 4 ? b[2] + d[2] : b[2], swap & 4 ? b[2] : b[2] + d[2] );
    const Visibility r = f.test_aabb( x, y, z );
    const Visibility w = none ? VISIBILITY_NONE : full ? VISIBILITY_FULL : VISIBILITY_PARTIAL;
    vp::check( r == w, l );
}

// the culler was used before, with other planes set up either way
template< class T > static void used( FrustumCuller< T >& f, bool corners )
{
    if( corners )
        f.setup( Vector< 3, T >( -1, 1, -1 ), Vector< 3, T >( 1, 1, -1 ), Vector< 3, T >( -1, -1, -1 ), Vector< 3, T >( 1, -1, -1 ),
                 Vector< 3, T >( -4, 4, -4 ), Vector< 3, T >( 4, 4, -4 ), Vector< 3, T >( -4, -4, -4 ), Vector< 3, T >( 4, -4, -4 ));
    else
        f.setup( Matrix< 4, 4, T >::IDENTITY );
    f.test_sphere( Vector< 4, T >( 0, 0, 0, 3 ));
    f.test_sphere( Vector< 4, T >( 50, 0, 0, 3 ));
    // fully visible here, not after the next set up
    if( corners )
        f.test_aabb( Vector< 2, T >( -1, 1 ), Vector< 2, T >( -1, 1 ), Vector< 2, T >( -3, -2 ));
    else
        f.test_aabb( Vector< 2, T >( -.5, .5 ), Vector< 2, T >( -.5, .5 ), Vector< 2, T >( -.5, .5 ));
    f.test_aabb( Vector< 2, T >( 40, 42 ), Vector< 2, T >( 40, 41 ), Vector< 2, T >( 40, 43 ));
}

template< class T > static void matrix_sphere()
{
    Matrix< 4, 4, T > m;
    T a[4][4], p[6][4], s[4];
    vu::mat( m, a, "m" );
    planes( a, p );
    for( int i = 0; i < 6; ++i )
        vp::assume( p[i][0] * p[i][0] + p[i][1] * p[i][1] + p[i][2] * p[i][2] > T( 0 ));
    for( int i = 0; i < 4; ++i )
        s[i] = vp::inf_< T >( "s", i );
    vp::assume( s[3] > T( 0 ));
    FrustumCuller< T > f;
    used( f, true );
    f.setup( m );
    vu::same( m, a, "setup leaves the matrix unchanged" );
    judge_sphere( f, p, s, "test_sphere() after setup( matrix )" );
}

// views whose plane normals have rational lengths, so that every comparison with the sphere is linear
template< class T > static void number_sphere( int view )
{
    const T row[3][4][3] = {{{ 2, 3, 6 }, { 1, -2, 2 }, { -6, 2, 3 }, { 0, 0, 0 }},
                            {{ T( .75 ), 0, 0 }, { 0, T( 2.4 ), 0 }, { 0, 0, -3 }, { 0, 0, -1 }},
                            {{ 1, 1, 0 }, { -1, 1, 1 }, { 0, 1, -1 }, { 2, 3, 5 }}};
    Matrix< 4, 4, T > m;
    T a[4][4], p[6][4], s[4];
    for( int i = 0; i < 4; ++i )
    {
        for( int j = 0; j < 3; ++j )
            a[i][j] = row[view][i][j];
        a[i][3] = vp::inf_< T >( "m", i );
        for( int j = 0; j < 4; ++j )
            m( i, j ) = a[i][j];
    }
    planes( a, p );
    for( int i = 0; i < 4; ++i )
        s[i] = vp::inf_< T >( "s", i );
    vp::assume( s[3] > T( 0 ));
    FrustumCuller< T > f;
    used( f, true );
    f.setup( m );
    judge_sphere( f, p, s, "test_sphere() after setup( numbers )" );
}

// parallel projection, axis k (the one whose planes may cut the box in any way) has an arbitrary row, the box is in front of
// the planes of the other axes
template< class T > static void matrix_box( int k, unsigned sg, int swap )
{
    Matrix< 4, 4, T > m;
    T a[4][4] = {}, p[6][4];
    bool pos[6][3];
    // numbers: the normals ( 2, 3, 6 ) / 7 and permutations with all signs; otherwise any normal with the signs given
    const bool num = sg == 8;
    if( num )
        sg = unsigned( vp_pick( "signs", -1, 8 ));
    const T nv[5] = { 2, 3, 6, 2, 3 };
    for( int i = 0; i < 4; ++i )
    {
        for( int j = 0; j < 4; ++j )
            if( i == k && j < 3 && num )
                a[i][j] = sg & ( 1u << j ) ? nv[ j + k ] : -nv[ j + k ];
            else if( i == k )
            {
                a[i][j] = vp::inf_< T >( "m", i * 4 + j );
                if( j < 3 )
                {
                    if( sg & ( 1u << j ))
                        vp::assume( a[i][j] > T( 0 ));
                    else
                        vp::assume( a[i][j] < T( 0 ));
                }
            }
            else if( i == 3 && j == 3 )
                a[i][j] = vp::inf_< T >( "m", 15 );
            else if( i == j )
                a[i][j] = T( 1 );
        for( int j = 0; j < 4; ++j )
            m.array[ j * 4 + i ] = a[i][j];
    }
    planes( a, p );
    for( int i = 0; i < 3; ++i )
        for( int j = 0; j < 3; ++j )
        {
            pos[2 * i][j] = i == k ? ( sg >> j ) & 1 : i == j;
            pos[2 * i + 1][j] = i == k ? !(( sg >> j ) & 1 ) : i != j;
        }
    FrustumCuller< T > f;
    used( f, k == 1 );
    f.setup( m );
    judge_box( f, p, pos, 1u << k, swap, "test_aabb() after setup( matrix ), one arbitrary pair of planes" );
}
// all six planes may cut the box in any way; scalings by powers of two, arbitrary translations
template< class T > static void axis_box()
{
    Matrix< 4, 4, T > m;
    T a[4][4] = {}, p[6][4];
    bool pos[6][3];
    for( int i = 0; i < 4; ++i )
    {
        a[i][i] = T( i == 0 ? 2 : i == 1 ? 1 : .5 );
        a[i][3] = vp::inf_< T >( "m", i * 4 + 3 );
        for( int j = 0; j < 4; ++j )
            m.array[ j * 4 + i ] = a[i][j];
    }
    planes( a, p );
    for( int i = 0; i < 3; ++i )
        for( int j = 0; j < 3; ++j )
        {
            pos[2 * i][j] = i == j;
            pos[2 * i + 1][j] = i != j;
        }
    FrustumCuller< T > f;
    used( f, true );
    f.setup( m );
    judge_box( f, p, pos, 7, -1, "test_aabb() after setup( matrix ), six free planes" );
}
// a general frustum: apex e, the left bottom edge along p, the near rectangle spanned by x and y, the far one K times further
template< class T > static void corner_setup( FrustumCuller< T >& f, T (&pl)[6][4] )
{
    T e[3], p[3], x[3], y[3], c[8][3];
    for( int i = 0; i < 3; ++i )
    {
        e[i] = vp::inf_< T >( "e", i );
        p[i] = vp::inf_< T >( "p", i );
        x[i] = vp::inf_< T >( "x", i );
        y[i] = vp::inf_< T >( "y", i );
    }
    const T k = vp::inf_< T >( "k" );
    vp::assume( k > T( 0 ));
    for( int j = 0; j < 8; ++j )
        for( int i = 0; i < 3; ++i )
        {
            const T d = p[i] + ( j & 1 ? x[i] : T( 0 )) + ( j & 2 ? y[i] : T( 0 ));
            c[j][i] = e[i] + ( j & 4 ? d + k * d : d );
        }
    T q[3], r[3], n[6][3];
    for( int i = 0; i < 3; ++i )
    {
        q[i] = p[i] + x[i];
        r[i] = p[i] + y[i];
    }
    const T* u[6] = { p, y, x, r, y, x };
    const T* v[6] = { y, q, p, x, x, y };
    for( int i = 0; i < 6; ++i )
    {
        n[i][0] = u[i][1] * v[i][2] - u[i][2] * v[i][1];
        n[i][1] = u[i][2] * v[i][0] - u[i][0] * v[i][2];
        n[i][2] = u[i][0] * v[i][1] - u[i][1] * v[i][0];
        const T* o = i < 4 ? e : i == 4 ? c[0] : c[4];
        for( int j = 0; j < 3; ++j )
            pl[i][j] = n[i][j];
        pl[i][3] = -( n[i][0] * o[0] + n[i][1] * o[1] + n[i][2] * o[2] );
        vp::assume( std::sqrt( n[i][0] * n[i][0] + n[i][1] * n[i][1] + n[i][2] * n[i][2] ) > T( 0 ));
    }
    // the near rectangle is right handed as seen from the apex
    vp::assume( n[0][0] * x[0] + n[0][1] * x[1] + n[0][2] * x[2] > T( 0 ));
    Vector< 3, T > w[8];
    for( int j = 0; j < 8; ++j )
        w[j].set( c[j][0], c[j][1], c[j][2] );
    used( f, false );
    f.setup( w[2], w[3], w[0], w[1], w[6], w[7], w[4], w[5] );
    for( int j = 0; j < 8; ++j )
        vu::same( w[j], c[j], "setup leaves the corners unchanged" );
}
template< class T > static void corner_sphere()
{
    FrustumCuller< T > f;
    T p[6][4], s[4];
    corner_setup( f, p );
    for( int i = 0; i < 4; ++i )
        s[i] = vp::inf_< T >( "s", i );
    vp::assume( s[3] > T( 0 ));
    judge_sphere( f, p, s, "test_sphere() after setup( corners )" );
}
// boxes against the planes of a given view volume, set up from its corners
template< class T > static void corner_box( unsigned cut )
{
    FrustumCuller< T > f;
    used( f, false );
    f.setup( Vector< 3, T >( -1, 1, -1 ), Vector< 3, T >( 1, 1, -1 ), Vector< 3, T >( -1, -1, -1 ), Vector< 3, T >( 1, -1, -1 ),
             Vector< 3, T >( -4, 4, -4 ), Vector< 3, T >( 4, 4, -4 ), Vector< 3, T >( -4, -4, -4 ), Vector< 3, T >( 4, -4, -4 ));
    const T p[6][4] = { { 1, 0, -1, 0 }, { -1, 0, -1, 0 }, { 0, 1, -1, 0 }, { 0, -1, -1, 0 }, { 0, 0, -1, -1 }, { 0, 0, 1, 4 } };
    bool pos[6][3];
    for( int i = 0; i < 6; ++i )
        for( int j = 0; j < 3; ++j )
            pos[i][j] = p[i][j] >= T( 0 );
    judge_box( f, p, pos, cut, cut == 7 ? 0 : int( cut ), "test_aabb() after setup( corners )" );
}
VP_REAL( cbox7f ) { corner_box< float >( 7 ); }
VPT_REAL( cbox1f ) { corner_box< float >( 1 ); }
VPT_REAL( cbox2f ) { corner_box< float >( 2 ); }
VPT_REAL( cbox4d ) { corner_box< double >( 4 ); }
VPT_REAL( cbox1d ) { corner_box< double >( 1 ); }
VPT_REAL( cbox2d ) { corner_box< double >( 2 ); }
VPT_REAL( cbox4f ) { corner_box< float >( 4 ); }
VP_REAL( mbox0f ) { matrix_box< float >( 0, 5, 0 ); }
VP_REAL( mbox1f ) { matrix_box< float >( 1, 2, 6 ); }
VP_REAL( mbox2f ) { matrix_box< float >( 2, 3, 5 ); }
VP_REAL( nbox0f ) { matrix_box< float >( 0, 8, -1 ); }
VP_REAL( nbox1f ) { matrix_box< float >( 1, 8, -1 ); }
VP_REAL( nbox2f ) { matrix_box< float >( 2, 8, -1 ); }
VPT_REAL( mbox0d ) { matrix_box< double >( 0, 5, 0 ); }
VPT_REAL( mbox1d ) { matrix_box< double >( 1, 2, 6 ); }
VPT_REAL( mbox2d ) { matrix_box< double >( 2, 3, 5 ); }
VPT_REAL( nbox0d ) { matrix_box< double >( 0, 8, -1 ); }
VPT_REAL( nbox1d ) { matrix_box< double >( 1, 8, -1 ); }
VPT_REAL( nbox2d ) { matrix_box< double >( 2, 8, -1 ); }
VP_REAL( aboxf ) { axis_box< float >(); }
VP_REAL( aboxd ) { axis_box< double >(); }
VP_REAL( cspheref ) { corner_sphere< float >(); }
VP_REAL( csphered ) { corner_sphere< double >(); }
VP_REAL( nsphere0f ) { number_sphere< float >( 0 ); }
VP_REAL( nsphere0d ) { number_sphere< double >( 0 ); }
VP_REAL( nsphere1f ) { number_sphere< float >( 1 ); }
VP_REAL( nsphere1d ) { number_sphere< double >( 1 ); }
VP_REAL( nsphere2f ) { number_sphere< float >( 2 ); }
VP_REAL( nsphere2d ) { number_sphere< double >( 2 ); }
VP_REAL( mspheref ) { matrix_sphere< float >(); }
VP_REAL( msphered ) { matrix_sphere< double >(); }
