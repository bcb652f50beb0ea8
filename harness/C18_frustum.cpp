// frustum: storage, perspective / orthographic matrices, field of view, near plane moves, jitter
//@ variant release -DNDEBUG
#include "vu.h"
#include <cstring>
#include <iomanip>
#include <vmmlib/frustum.hpp>
using namespace vmml;

template< class T > static void fill( Frustum< T >& f, T (&a)[6] )
{
    // the frustum was used with other values before
    f.set( T( -1 ), T( 3 ), T( -2 ), T( 2 ), T( 1 ), T( 9 ));
    f.compute_matrix();
    f.compute_ortho_matrix();
    f.get_width();
    f.get_height();
    T b[6];
    for( int i = 0; i < 6; ++i )
        b[i] = a[i] = vp::inf_< T >( "f", i );
    f.set( b[0], b[1], b[2], b[3], b[4], b[5] );
}
template< class T > static void same6( const Frustum< T >& f, const T (&a)[6], const char* l )
{
    vp::eq( f.left(), a[0], l, 0 );
    vp::eq( f.right(), a[1], l, 1 );
    vp::eq( f.bottom(), a[2], l, 2 );
    vp::eq( f.top(), a[3], l, 3 );
    vp::eq( f.near_plane(), a[4], l, 4 );
    vp::eq( f.far_plane(), a[5], l, 5 );
}

template< class T > static void matrices( bool ortho )
{
    Frustum< T > f;
    T a[6];
    fill( f, a );
    const T w = a[1] - a[0], h = a[3] - a[2], d = a[5] - a[4];
    vp::assume( w != T( 0 ));
    vp::assume( h != T( 0 ));
    vp::assume( d != T( 0 ));
    T s[4][4];
    Matrix< 4, 4, T > m;
    vu::mat( m, s, "junk" ); // every element has to be set
    Matrix< 4, 4, T > r;
    if( ortho )
    {
        f.compute_ortho_matrix( m );
        r = f.compute_ortho_matrix();
    }
    else
    {
        f.compute_matrix( m );
        r = f.compute_matrix();
    }
    same6( f, a, "computing the matrix leaves the frustum unchanged" );
    for( int k = 0; k < 2; ++k )
    {
        const Matrix< 4, 4, T >& x = k ? r : m;
        const char* l = ortho ? "orthographic matrix" : "perspective matrix";
        T e[4][4] = {};
        T den[4][4];
        for( int i = 0; i < 4; ++i )
            for( int j = 0; j < 4; ++j )
                den[i][j] = T( 1 );
        den[0][0] = den[0][2] = den[0][3] = w;
        den[1][1] = den[1][2] = den[1][3] = h;
        den[2][2] = den[2][3] = d;
        if( ortho )
        {
            e[0][0] = T( 2 );
            e[0][3] = -( a[1] + a[0] );
            e[1][1] = T( 2 );
            e[1][3] = -( a[3] + a[2] );
            e[2][2] = -T( 2 );
            e[2][3] = -( a[5] + a[4] );
            e[3][3] = T( 1 );
        }
        else
        {
            e[0][0] = T( 2 ) * a[4];
            e[0][2] = a[1] + a[0];
            e[1][1] = T( 2 ) * a[4];
            e[1][2] = a[3] + a[2];
            e[2][2] = -( a[5] + a[4] );
            e[2][3] = -T( 2 ) * a[5] * a[4];
            e[3][2] = -T( 1 );
        }
        for( int i = 0; i < 4; ++i )
            for( int j = 0; j < 4; ++j )
                vp::eq( x.array[ j * 4 + i ] * den[i][j], e[i][j], l, i * 4 + j );
    }
}

// the corners of the view volume are mapped to the corners of the cube [-1,1]^3
template< class T > static void corners( bool ortho )
{
    Frustum< T > f;
    T a[6];
    fill( f, a );
    vp::assume( a[0] != a[1] );
    vp::assume( a[2] != a[3] );
    vp::assume( a[4] != a[5] );
    vp::assume( a[4] != T( 0 ));
    const Matrix< 4, 4, T > m = ortho ? f.compute_ortho_matrix() : f.compute_matrix();
    for( int i = 0; i < 8; ++i )
    {
        const T z = i & 4 ? a[5] : a[4];
        const T x = i & 1 ? a[1] : a[0], y = i & 2 ? a[3] : a[2];
        // on the far plane the section of the pyramid is larger: ( x, y ) * z / near
        const T p[4] = { ortho ? x : x * z, ortho ? y : y * z, ortho ? -z : -z * a[4], ortho ? T( 1 ) : a[4] };
        T c[4];
        for( int r = 0; r < 4; ++r )
            c[r] = m.array[r] * p[0] + m.array[4 + r] * p[1] + m.array[8 + r] * p[2] + m.array[12 + r] * p[3];
        const char* l = ortho ? "orthographic: corners go to the unit cube" : "perspective: corners go to the unit cube";
        vp::eq( c[0], i & 1 ? c[3] : -c[3], l, 3 * i );
        vp::eq( c[1], i & 2 ? c[3] : -c[3], l, 3 * i + 1 );
        vp::eq( c[2], i & 4 ? c[3] : -c[3], l, 3 * i + 2 );
    }
}

template< class T > static void perspective()
{
    Frustum< T > f;
    T a[6];
    fill( f, a );
    const T fov = vp::inf_< T >( "fov" ), asp = vp::inf_< T >( "aspect" );
    const T n = vp::inf_< T >( "near" ), fa = vp::inf_< T >( "far" );
    vp::assume( fov > T( 0 ));
    vp::assume( fov < T( 180 ));
    f.set_perspective( fov, asp, n, fa );
    const double half = 0.5 * double( fov ) * M_PI / 180.0;
    const T s = T( std::sin( half )), c = T( std::cos( half ));
    vp::assume( s > T( 0 )); // both follow from the range of fov
    vp::assume( c > T( 0 ));
    vp::eq( f.near_plane(), n, "set_perspective(): near" );
    vp::eq( f.far_plane(), fa, "set_perspective(): far" );
    vp::eq( f.top() * c, s * n, "set_perspective(): top is tan( fov / 2 ) * near" );
    vp::eq( f.bottom() * c, -s * n, "set_perspective(): bottom is -top" );
    vp::eq( f.right() * c, s * n * asp, "set_perspective(): right is top * aspect" );
    vp::eq( f.left() * c, -s * n * asp, "set_perspective(): left is bottom * aspect" );
}

template< class T > static void near_move()
{
    Frustum< T > f;
    T a[6];
    fill( f, a );
    const T n = vp::inf_< T >( "near" );
    vp::assume( a[4] != T( 0 ));
    f.adjust_near( n );
    for( int i = 0; i < 4; ++i )
        vp::eq( f.array[i] * a[4], a[i] * n, "adjust_near() keeps the view pyramid", i );
    vp::eq( f.near_plane(), n, "adjust_near(): near" );
    vp::eq( f.far_plane(), a[5], "adjust_near(): far unchanged" );
}

template< class T > static void jitter()
{
    Frustum< T > f;
    T a[6], j[2];
    fill( f, a );
    Vector< 2, T > v;
    vu::vec( v, j, "j" );
    vp::eq( f.get_width(), vp::absv< T >( a[1] - a[0] ), "get_width()" );
    vp::eq( f.get_height(), vp::absv< T >( a[3] - a[2] ), "get_height()" );
    same6( f, a, "width and height leave the frustum unchanged" );
    f.apply_jitter( v );
    const T e[6] = { a[0] + j[0], a[1] + j[0], a[2] + j[1], a[3] + j[1], a[4], a[5] };
    same6( f, e, "apply_jitter() shifts x and y" );
    vu::same( v, j, "jitter unchanged" );
}

template< class T, class U > static void storage()
{
    U a[6];
    T e[6];
    for( int i = 0; i < 6; ++i )
    {
        a[i] = vp::inf_< U >( "a", i );
        if( std::is_floating_point< U >::value )
        {
            vp::assume( double( a[i] ) <= 1e30 );
            vp::assume( double( a[i] ) >= -1e30 );
        }
        e[i] = T( a[i] );
    }
    Frustum< U > s( a[0], a[1], a[2], a[3], a[4], a[5] );
    same6( s, a, "Frustum( l, r, b, t, n, f )" );
    s.array[0] = U( 0 );
    s.set( a[0], a[1], a[2], a[3], a[4], a[5] );
    same6( s, a, "set( l, r, b, t, n, f )" );
    same6( Frustum< T >( s ), e, "converting constructor" );
    same6( Frustum< T >( &a[0] ), e, "Frustum( values )" );
    Frustum< T > t;
    T z[6] = {};
    same6( t, z, "Frustum() is zero" );
    t = s;
    same6( t, e, "assignment" );
    same6( s, a, "the source is unchanged" );
    Frustum< U > c( s ), d;
    d = s;
    same6( c, a, "copy" );
    same6( d, a, "copy assignment" );
    for( int i = 0; i < 6; ++i )
    {
        Frustum< U > w( s );
        U v[6];
        for( int k = 0; k < 6; ++k )
            v[k] = a[k];
        v[i] = vp::inf_< U >( "w", i );
        U& r = i == 0 ? w.left() : i == 1 ? w.right() : i == 2 ? w.bottom() : i == 3 ? w.top() : i == 4 ? w.near_plane() : w.far_plane();
        r = v[i];
        same6( w, v, "writing one value" );
    }
    const T def[6] = { T( -1 ), T( 1 ), T( -1 ), T( 1 ), T( 0.1 ), T( 100 ) };
    same6( Frustum< T >::DEFAULT, def, "DEFAULT" );
}

// the matrices, the width and the height follow every kind of change
template< class T > static void reuse( bool ortho )
{
    Frustum< T > f;
    T a[6];
    fill( f, a );
    vp::assume( a[0] != a[1] );
    vp::assume( a[2] != a[3] );
    vp::assume( a[4] != a[5] );
    vp::assume( a[4] > T( 0 ));
    f.compute_matrix();
    f.compute_ortho_matrix();
    f.get_width();
    const T v = vp::inf_< T >( "v" );
    vp::assume( v > T( 0 ));
    switch( vp_pick( "how", -1, 8 ))
    {
      case 0: f.left() = v; break;
      case 1: f.right() = v; break;
      case 2: f.bottom() = v; break;
      case 3: f.top() = v; break;
      case 4: f.near_plane() = v; break;
      case 5: f.far_plane() = v; break;
      case 6: f.adjust_near( v ); break;
      default: f.apply_jitter( Vector< 2, T >( v, v )); break;
    }
    const T w = f.array[1] - f.array[0], h = f.array[3] - f.array[2], d = f.array[5] - f.array[4];
    vp::assume( w != T( 0 ));
    vp::assume( h != T( 0 ));
    vp::assume( d != T( 0 ));
    vp::eq( f.get_width(), vp::absv< T >( w ), "a frustum used before: get_width()" );
    vp::eq( f.get_height(), vp::absv< T >( h ), "a frustum used before: get_height()" );
    const Matrix< 4, 4, T > m = ortho ? f.compute_ortho_matrix() : f.compute_matrix();
    const char* l = ortho ? "a frustum used before: compute_ortho_matrix()" : "a frustum used before: compute_matrix()";
    const T n2 = ortho ? T( 2 ) : T( 2 ) * f.array[4];
    vp::eq( m.array[0] * w, n2, l, 0 );
    vp::eq( m.array[5] * h, n2, l, 5 );
    vp::eq( m.array[ ortho ? 12 : 8 ] * w, ( ortho ? T( -1 ) : T( 1 )) * ( f.array[1] + f.array[0] ), l, 8 );
    vp::eq( m.array[ ortho ? 13 : 9 ] * h, ( ortho ? T( -1 ) : T( 1 )) * ( f.array[3] + f.array[2] ), l, 9 );
    vp::eq( m.array[10] * d, ortho ? T( -2 ) : -( f.array[5] + f.array[4] ), l, 10 );
    vp::eq( m.array[14] * d, ortho ? -( f.array[5] + f.array[4] ) : T( -2 ) * f.array[4] * f.array[5], l, 14 );
}

VP_REAL( reusef ) { reuse< float >( false ); }
VP_REAL( reused ) { reuse< double >( false ); }
VP_REAL( oreusef ) { reuse< float >( true ); }
VP_REAL( oreused ) { reuse< double >( true ); }
VP_REAL( perspf ) { matrices< float >( false ); }
VP_REAL( perspd ) { matrices< double >( false ); }
VP_REAL( orthof ) { matrices< float >( true ); }
VP_REAL( orthod ) { matrices< double >( true ); }
VP_REAL( cornersd ) { corners< double >( false ); }
VP_REAL( cornersf ) { corners< float >( false ); }
VP_REAL( ocornersd ) { corners< double >( true ); }
VP_REAL( ocornersf ) { corners< float >( true ); }
VP_REAL( fovf ) { perspective< float >(); }
VP_REAL( fovd ) { perspective< double >(); }
VP_REAL( nearf ) { near_move< float >(); }
VP_REAL( neard ) { near_move< double >(); }
VP_REAL( jitterf ) { jitter< float >(); }
VP_REAL( jitterd ) { jitter< double >(); }
VP_FP( storefi ) { storage< float, int >(); }
VP_FP( storedl ) { storage< double, int64_t >(); }
VP_FP( storeff ) { storage< float, float >(); }
VP_FP( storedf ) { storage< double, float >(); }
VP_FP( storefd ) { storage< float, double >(); }
VP_FP( storedd ) { storage< double, double >(); }

// a field of view near that of the previous call
//@ opt fovmoved trigconst=1
VP_REAL( fovmoved )
{
    const double near = vp::inf_< double >( "near" ), asp = vp::inf_< double >( "aspect" );
    vp::assume( near > 0. );
    vp::assume( near <= 10. );
    vp::assume( asp > 0. );
    vp::assume( asp <= 10. );
    const double gap[3] = { 0.5, 0.005, 0.00005 };
    const double fov = 45.;
    Frustum< double > f, g;
    f.set_perspective( fov + gap[ vp_pick( "gap", -1, 3 ) ], 1., 1., 10. );
    g.set_perspective( fov, asp, near, 10. );
    const double half = 0.5 * fov * M_PI / 180.0;
    const double t = std::tan( half ) * near;
    vp::le( g.top(), t * ( 1 + 1e-9 ), "set_perspective(): top is tan( fov / 2 ) * near", 0 );
    vp::le( t * ( 1 - 1e-9 ), g.top(), "set_perspective(): top is tan( fov / 2 ) * near", 1 );
    vp::le( g.right(), t * asp * ( 1 + 1e-9 ), "set_perspective(): right is top * aspect", 0 );
    vp::le( t * asp * ( 1 - 1e-9 ), g.right(), "set_perspective(): right is top * aspect", 1 );
}
