// 4x4 transformations acting on column vectors
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/util.hpp>
using namespace vmml;

template< class T > static void ident( T (&e)[4][4] )
{
    for( int i = 0; i < 4; ++i )
        for( int j = 0; j < 4; ++j )
            e[i][j] = T( i == j ? 1 : 0 );
}
template< class T > static void mul( const T (&a)[4][4], const T (&b)[4][4], T (&r)[4][4] )
{
    for( int i = 0; i < 4; ++i )
        for( int j = 0; j < 4; ++j )
            r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j];
}
// an arbitrary unit axis
template< class T > static void axis( Vector< 3, T >& v, T (&a)[3] )
{
    a[0] = vp::inf_< T >( "axis", 0 );
    a[1] = vp::inf_< T >( "axis", 1 );
    const T q = T( 1 ) - a[0] * a[0] - a[1] * a[1];
    vp::assume( q >= T( 0 ));
    a[2] = std::sqrt( q );
    if( vp_bool( "neg", -1 ))
        a[2] = -a[2];
    for( int i = 0; i < 3; ++i )
        v.array[i] = a[i];
}
// right handed rotation about a unit axis
template< class T > static void rodrigues( const T (&a)[3], T s, T c, T (&e)[4][4] )
{
    ident( e );
    const T k[3][3] = {{ T( 0 ), -a[2], a[1] }, { a[2], T( 0 ), -a[0] }, { -a[1], a[0], T( 0 ) }};
    for( int i = 0; i < 3; ++i )
        for( int j = 0; j < 3; ++j )
            e[i][j] = ( i == j ? c : T( 0 )) + ( T( 1 ) - c ) * a[i] * a[j] + s * k[i][j];
}

template< class T, class TT > static void rotation()
{
    Matrix< 4, 4, T > m;
    T a[4][4], k[3], e[4][4];
    vu::mat( m, a, "m" );
    Vector< 3, T > v;
    axis( v, k );
    const TT th = vp::inf_< TT >( "theta" );
    rodrigues( k, T( std::sin( T( th ))), T( std::cos( T( th ))), e );
    Matrix< 4, 4, T >& r = m.rotate( th, v );
    vp::check( &r == &m, "rotate() returns the matrix" );
    vu::same( m, e, "rotate( angle, axis ) sets the rotation matrix" );
    vu::same( v, k, "axis unchanged" );
}

template< class T, class TT > static void axis_rot( int k, bool pre )
{
    Matrix< 4, 4, T > m;
    T a[4][4], e[4][4], r[4][4];
    vu::mat( m, a, "m" );
    const TT th = vp::inf_< TT >( "theta" );
    T u[3] = { T( 0 ), T( 0 ), T( 0 ) };
    u[k] = T( 1 );
    const T s = std::sin( T( th )), c = std::cos( T( th ));
    // the pre_ variants multiply the inverse rotation from the left
    rodrigues( u, pre ? -s : s, c, e );
    if( pre )
    {
        if( k == 0 ) m.pre_rotate_x( th );
        if( k == 1 ) m.pre_rotate_y( th );
        if( k == 2 ) m.pre_rotate_z( th );
        mul( e, a, r );
    }
    else
    {
        if( k == 0 ) m.rotate_x( th );
        if( k == 1 ) m.rotate_y( th );
        if( k == 2 ) m.rotate_z( th );
        mul( a, e, r );
    }
    vu::same( m, r, pre ? "pre_rotate_x / y / z() is R( -angle ) * M" : "rotate_x / y / z() is M * R( angle )" );
}

template< class T, class TT > static void scaling( int how )
{
    Matrix< 4, 4, T > m;
    T a[4][4], e[4][4], r[4][4];
    vu::mat( m, a, "m" );
    TT f[3];
    for( int i = 0; i < 3; ++i )
        f[i] = vp::inf_< TT >( "f", i );
    const Vector< 3, TT > v( f[0], f[1], f[2] );
    ident( e );
    for( int i = 0; i < 3; ++i )
        e[i][i] = T( f[i] );
    mul( a, e, r );
    if( how == 0 ) m.scale( f );
    if( how == 1 ) m.scale( f[0], T( f[1] ), T( f[2] ));
    if( how == 2 ) m.scale( v );
    if( how < 3 )
    {
        vu::same( m, r, "scale() is M * S" );
        return;
    }
    for( int i = 0; i < 3; ++i )
        a[i][3] *= T( f[i] );
    if( how == 3 ) m.scale_translation( f );
    if( how == 4 ) m.scale_translation( v );
    vu::same( m, a, "scale_translation() scales exactly the translation" );
}

// the operands are elements of the matrix
template< class T > static void aliased( int how )
{
    Matrix< 4, 4, T > m;
    T a[4][4], e[4][4], r[4][4];
    vu::mat( m, a, "m" );
    ident( e );
    if( how < 3 )
    {
        for( int i = 0; i < 3; ++i )
            e[i][i] = how == 0 ? a[i][i] : how == 1 ? a[i][0] : a[0][0];
        mul( a, e, r );
        if( how == 0 ) m.scale( m( 0, 0 ), m( 1, 1 ), m( 2, 2 ));
        if( how == 1 ) m.scale( &m.array[0] );
        if( how == 2 ) m.scale( m( 0, 0 ), m( 0, 0 ), m( 0, 0 ));
        vu::same( m, r, "scale() by elements of the matrix is M * S" );
        return;
    }
    const T t[3] = { a[2][3], a[0][3], a[1][3] };
    for( int i = 0; i < 3; ++i )
        a[i][3] = t[i];
    m.set_translation( m( 2, 3 ), m( 0, 3 ), m( 1, 3 ));
    vu::same( m, a, "set_translation() with elements of the matrix" );
}

template< class T, class TT > static void translation( int how )
{
    Matrix< 4, 4, T > m;
    T a[4][4];
    vu::mat( m, a, "m" );
    TT f[3];
    for( int i = 0; i < 3; ++i )
        f[i] = vp::inf_< TT >( "f", i );
    const Vector< 3, TT > v( f[0], f[1], f[2] );
    const Vector< 3, T > g = m.get_translation();
    Vector< 3, TT > h;
    m.get_translation( h );
    for( int i = 0; i < 3; ++i )
    {
        vp::eq( g.array[i], a[i][3], "get_translation()", i );
        vp::eq( h.array[i], TT( a[i][3] ), "get_translation( t )", i );
        a[i][3] = T( f[i] );
    }
    if( how == 0 ) m.set_translation( f );
    if( how == 1 ) m.set_translation( f[0], f[1], f[2] );
    if( how == 2 ) m.set_translation( v );
    vu::same( m, a, "set_translation() replaces exactly the translation" );
}

template< class T > static void created( int how )
{
    T f[3], k[3], e[4][4];
    ident( e );
    if( how == 2 || how == 3 )
    {
        Vector< 3, T > v;
        axis( v, k );
        const T th = vp::inf_< T >( "theta" );
        rodrigues( k, T( std::sin( th )), T( std::cos( th )), e );
        vu::same( create_rotation( th, v ), e, "create_rotation()" );
        return;
    }
    for( int i = 0; i < 3; ++i )
        f[i] = vp::inf_< T >( "f", i );
    const Vector< 3, T > v( f[0], f[1], f[2] );
    if( how == 0 )
    {
        for( int i = 0; i < 3; ++i )
            e[i][3] = f[i];
        vu::same( create_translation( v ), e, "create_translation()" );
        return;
    }
    for( int i = 0; i < 3; ++i )
        e[i][i] = f[i];
    vu::same( create_scaling( v ), e, "create_scaling( v )" );
    for( int i = 0; i < 3; ++i )
        e[i][i] = f[0];
    vu::same( create_scaling( f[0] ), e, "create_scaling( s )" );
}

template< class T > static void applied( bool rot )
{
    Matrix< 4, 4, T > m;
    T a[4][4], e[4][4], r[4][4], k[3];
    vu::mat( m, a, "m" );
    ident( e );
    if( rot )
    {
        Vector< 3, T > v;
        axis( v, k );
        const T th = vp::inf_< T >( "theta" );
        rodrigues( k, T( std::sin( th )), T( std::cos( th )), e );
        apply_rotation( m, th, k[0], k[1], k[2] );
    }
    else
    {
        for( int i = 0; i < 3; ++i )
            e[i][3] = k[i] = vp::inf_< T >( "f", i );
        apply_translation( m, k[0], k[1], k[2] );
    }
    mul( a, e, r );
    vu::same( m, r, rot ? "apply_rotation() is M * R" : "apply_translation() is M * T" );
}

// rotation and translation from a rotation matrix and a translation vector
template< class T > static void from_parts()
{
    Matrix< 3, 3, T > m;
    Vector< 3, T > t;
    T a[3][3], b[3], e[4][4];
    vu::mat( m, a, "m" );
    vu::vec( t, b, "t" );
    ident( e );
    for( int i = 0; i < 3; ++i )
    {
        for( int j = 0; j < 3; ++j )
            e[i][j] = a[i][j];
        e[i][3] = b[i];
    }
    Matrix< 4, 4, T > r( Matrix< 4, 4, T >::IDENTITY );
    r.set_sub_matrix( m, 0, 0 );
    r.set_translation( t );
    vu::same( r, e, "rotation block and translation" );
    // transforms points as R p + t
    Vector< 3, T > p;
    T q[3];
    vu::vec( p, q, "p" );
    const Vector< 3, T > s = r * p;
    for( int i = 0; i < 3; ++i )
        vp::eq( s.array[i], T( a[i][0] * q[0] + a[i][1] * q[1] + a[i][2] * q[2] + b[i] ), "M * p is R p + t", i );
}

VP_REAL( aliased0 ) { aliased< double >( 0 ); }
VP_REAL( aliased1 ) { aliased< float >( 1 ); }
VP_REAL( aliased2 ) { aliased< double >( 2 ); }
VP_REAL( aliased3 ) { aliased< float >( 3 ); }
VP_REAL( rotf ) { rotation< float, float >(); }
VP_REAL( rotd ) { rotation< double, double >(); }
VP_REAL( rotdf ) { rotation< double, float >(); }
#define AXIS( n, k, pre ) VP_REAL( n##f ) { axis_rot< float, float >( k, pre ); } VP_REAL( n##d ) { axis_rot< double, double >( k, pre ); }
AXIS( rx, 0, false )
AXIS( ry, 1, false )
AXIS( rz, 2, false )
AXIS( prx, 0, true )
AXIS( pry, 1, true )
AXIS( prz, 2, true )
VP_REAL( scalef ) { scaling< float, float >( int( vp_pick( "how", -1, 5 ))); }
VP_REAL( scaled ) { scaling< double, double >( int( vp_pick( "how", -1, 5 ))); }
VP_REAL( scaledf ) { scaling< double, float >( int( vp_pick( "how", -1, 5 ))); }
VP_REAL( transf ) { translation< float, float >( int( vp_pick( "how", -1, 3 ))); }
VP_REAL( transd ) { translation< double, double >( int( vp_pick( "how", -1, 3 ))); }
VP_REAL( transdf ) { translation< double, float >( int( vp_pick( "how", -1, 3 ))); }
VP_REAL( createf ) { created< float >( int( vp_pick( "how", -1, 3 ))); }
VP_REAL( created ) { created< double >( int( vp_pick( "how", -1, 3 ))); }
VP_REAL( applyf ) { applied< float >( vp_bool( "rot", -1 )); }
VP_REAL( applyd ) { applied< double >( vp_bool( "rot", -1 )); }
VP_REAL( partsf ) { from_parts< float >(); }
VP_REAL( partsd ) { from_parts< double >(); }

// the previous call was for an angle nearby
template< class T > static void moved( int how )
{
    const T th = vp::inf_< T >( "theta" ), d = vp::inf_< T >( "d" );
    vp::assume( th >= T( 0.29 ) );
    vp::assume( th <= T( 1.3 ) );
    vp::assume( d >= T( 0.0003 ) );
    vp::assume( d <= T( 0.00095 ) );
    // the solver knows of sin and cos what is said here; the ranges agree with those above
    const T s = std::sin( th ), c = std::cos( th ), sd = std::sin( d );
    vp::assume( s >= T( 0.3 ) );
    vp::assume( s <= T( 0.93 ) );
    vp::assume( c > T( 0 ) );
    vp::assume( sd >= T( 0.0004 ) );
    vp::assume( sd <= T( 0.0009 ) );
    vp::assume( std::cos( d ) > T( 0 ) );
    Matrix< 4, 4, T > m;
    T a[4][4], e[4][4], r[4][4];
    for( int i = 0; i < 4; ++i )
        for( int j = 0; j < 4; ++j )
            m.array[ j * 4 + i ] = a[i][j] = T(( i * 7 + j * 3 ) % 5 + 1 );
    const int x = how % 3;
    T u[3] = { T( 0 ), T( 0 ), T( 0 ) };
    u[x] = T( 1 );
    const Vector< 3, T > ax( u[0], u[1], u[2] );
    Matrix< 4, 4, T > w( m );
    for( int call = 0; call < 2; ++call )
    {
        Matrix< 4, 4, T >& t = call ? m : w;
        const T b = call ? th : th + d;
        switch( how )
        {
          case 0: t.rotate_x( b ); break;
          case 1: t.rotate_y( b ); break;
          case 2: t.rotate_z( b ); break;
          case 3: t.pre_rotate_x( b ); break;
          case 4: t.pre_rotate_y( b ); break;
          case 5: t.pre_rotate_z( b ); break;
          case 6: case 7: case 8: t.rotate( b, ax ); break;
          case 9: case 10: case 11: t = create_rotation( b, ax ); break;
          default: apply_rotation( t, b, u[0], u[1], u[2] ); break;
        }
    }
    const bool pre = how >= 3 && how < 6;
    rodrigues( u, pre ? -s : s, c, e );
    if( pre )
        mul( e, a, r );
    else if( how >= 6 && how < 12 )
        std::copy( &e[0][0], &e[0][0] + 16, &r[0][0] );
    else
        mul( a, e, r );
    vu::same( m, r, "rotation by an angle near that of the previous call" );
}
VP_REAL( movedd ) { moved< double >( int( vp_pick( "how", -1, 15 ))); }
