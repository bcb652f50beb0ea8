// threads: operations write nothing but what they are given to write, so threads may share operands and use objects of their own
//@ keep stores
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/vmmlib.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/intersection.hpp>
#include <vmmlib/lowpass_filter.hpp>
#include <vmmlib/qr_decomposition.hpp>
#include <vmmlib/util.hpp>
#include <vmmlib/math.hpp>
#include <vmmlib/matrix_functors.hpp>
using namespace vmml;

// The operands made outside of vp::threads() are shared by the threads, what is made inside belongs to one thread.
template< class T > static void keep( const T& ) {}

template< size_t M, class T > static void vec_arith()
{
    Vector< M, T > a, b;
    T x[M], y[M];
    vu::vecmod( a, x, "a" );
    vu::vecmod( b, y, "b" );
    for( size_t i = 0; i < M; ++i )
        vp::assume( y[i] > T( 0 ));
    const T s = vp::mod< T >( "s" );
    vp::assume( s > T( 0 ));
    const Vector< M, T >& u = a;
    const Vector< M, T >& v = b;
    vp::threads( [&] {
        Vector< M, T > r( u ), q;
        r = u + v; r = u - v; r = u * v; r = u / v; r = -u;
        r = u + s; r = u - s; r = u * s; r = u / s;
        r += u; r -= v; r *= u; r /= v;
        r += s; r -= s; r *= s; r /= s;
        q = v;
        r.set( s );
        r.iter_set( u.begin(), u.end( ));
        keep( u.dot( v )); keep( dot( u, v ));
        keep( u.squared_length( )); keep( u.squared_distance( v ));
        keep( u.product( ));
        keep( u.at( 0 )); keep( u[0] ); keep( u( 0 )); keep( *u.begin( )); keep( u.end() - u.begin( )); keep( *u.rbegin( ));
        const T* p = u; keep( *p );
        Vector< M - 1, T > w = u.template get_sub_vector< M - 1 >( 0 );
        keep( w );
        keep( Vector< M, T >::ZERO.array[0] ); keep( Vector< M, T >::ONE.array[0] );
    } );
}
template< size_t M, class T > static void vec_length()
{
    Vector< M, T > a, b;
    T x[M], y[M];
    vu::vec( a, x, "a" );
    vu::vec( b, y, "b" );
    vp::assume( x[0] != T( 0 ));
    const Vector< M, T >& u = a;
    const Vector< M, T >& v = b;
    vp::threads( [&] {
        Vector< M, T > r( u );
        keep( u.length( )); keep( u.norm( )); keep( u.distance( v ));
        r.normalize();
        keep( normalize( u ));
        keep( u.is_unit_vector( ));
    } );
}
template< class T > static void vec_order()
{
    Vector< 3, T > a, b;
    T x[3], y[3];
    vu::vec( a, x, "a" );
    vu::vec( b, y, "b" );
    const Vector< 3, T >& u = a;
    const Vector< 3, T >& v = b;
    switch( vp_pick( "what", -1, 6 ))
    {
      case 0: vp::threads( [&] { keep( u == v ); keep( u != v ); } ); break;
      case 1: vp::threads( [&] { keep( u < v ); } ); break;
      case 2: vp::threads( [&] { keep( u.find_min_index( )); keep( u.find_max_index( )); } ); break;
      case 3: vp::threads( [&] { keep( u.find_abs_min_index( )); keep( u.find_abs_max_index( )); } ); break;
      case 4: vp::threads( [&] { keep( u.find_min( )); keep( u.find_max( )); } ); break;
      default: vp::threads( [&] { keep( u.nnz( )); keep( u.equals( v )); } );
    }
}
template< class T > static void vec_scale()
{
    Vector< 2, T > a;
    T x[2];
    vu::vec( a, x, "a" );
    const Vector< 2, T >& u = a;
    vp::threads( [&] {
        Vector< 2, unsigned char > q;
        u.scale_to( q, T( -1 ), T( 1 ));
        keep( q );
        Vector< 2, T > r( u );
        r.sqrt_elementwise();
        r.reciprocal();
    } );
}
template< class T > static void vec3()
{
    Vector< 3, T > a, b, c;
    T x[3], y[3], z[3];
    vu::vec( a, x, "a" );
    vu::vec( b, y, "b" );
    vu::vec( c, z, "c" );
    const T t = vp::inf_< T >( "t" );
    const Vector< 3, T >& u = a;
    const Vector< 3, T >& v = b;
    const Vector< 3, T >& w = c;
    vp::threads( [&] {
        Vector< 3, T > r( u );
        r.cross( u, v ); keep( u.cross( v )); keep( cross< 3, T >( u, v ));
        Vector< 4, T > h( u, t ), i( t );
        h.set( u, t );
        keep( u.x( )); keep( u.y( )); keep( u.z( )); keep( u.r( )); keep( u.g( )); keep( u.b( ));
        r.set( t, t, t );
        r.compute_normal( u, v, w ); keep( w.compute_normal( u, v ));
        keep( compute_plane( u, v, w ));
    } );
}
template< class T > static void vec4()
{
    Vector< 4, T > a;
    Vector< 3, T > b;
    T x[4], y[3];
    vu::vec( a, x, "a" );
    vu::vec( b, y, "b" );
    const Vector< 4, T >& u = a;
    const Vector< 3, T >& v = b;
    vp::threads( [&] {
        keep( u.w( )); keep( u.a( ));
        keep( u.distance_to_plane( v ));
        keep( u.distance_to_sphere( v ));
        keep( u.project_point_onto_sphere( v ));
    } );
}

template< size_t M, size_t N, class T > static void mat_arith()
{
    Matrix< M, N, T > a, b;
    T x[M][N], y[M][N];
    vu::matmod( a, x, "a" );
    vu::matmod( b, y, "b" );
    const T s = vp::mod< T >( "s" );
    vp::assume( s > T( 0 ));
    Vector< N, T > vn( s );
    Vector< M, T > vm( s );
    const Matrix< M, N, T >& u = a;
    const Matrix< M, N, T >& v = b;
    const Vector< N, T >& n = vn;
    vp::threads( [&] {
        Matrix< M, N, T > r( u ), q;
        r = u + v; r = u - v; r = -u; r = u.negate();
        r += u; r -= v; r += s; r -= s; r *= s; r /= s;
        r.multiply_piecewise( v );
        q = v;
        r.fill( s ); r.zero(); r.set( u.begin(), u.end( ));
        Vector< M, T > p = u * n;
        Matrix< N, M, T > t;
        u.transpose_to( t ); t = transpose( u );
        Matrix< M, M, T > m = u * t;
        Matrix< N, N, T > k;
        k.multiply( t, u );
        u.symmetric_covariance( m );
        keep( u( 0, 0 )); keep( u.at( 0, 0 )); keep( *u.begin( )); keep( *u.rbegin( )); keep( u.end() - u.begin( )); keep( u.size( ));
        const T* c = u; keep( *c );
        Vector< M, T > col = u.get_column( 0 );
        Vector< N, T > row = u.get_row( 0 );
        u.get_column( 0, col ); u.get_row( 0, row );
        r.set_column( 0, col ); r.set_row( 0, row );
        Matrix< M, 1, T > cm; Matrix< 1, N, T > rm;
        u.get_column( 0, cm ); u.get_row( 0, rm );
        r.set_column( 0, cm ); r.set_row( 0, rm );
        Matrix< M - 1, N - 1, T > sub;
        u.get_sub_matrix( sub, 1, 1 ); r.set_sub_matrix( sub, 0, 0 );
        sub = u.template get_sub_matrix< M - 1, N - 1 >( 1, 0 );
        keep( u.sum_elements( ));
        Vector< N, T > cs; u.columnwise_sum( cs );
    } );
    (void)vm;
}
template< class T > static void mat_special()
{
    Matrix< 2, 3, T > a, b;
    Matrix< 2, 2, T > k;
    T x[2][3], y[2][3], z[2][2];
    vu::mat( a, x, "a" );
    vu::mat( b, y, "b" );
    vu::mat( k, z, "k" );
    const Matrix< 2, 3, T >& u = a;
    const Matrix< 2, 3, T >& v = b;
    const Matrix< 2, 2, T >& w = k;
    vp::threads( [&] {
        Matrix< 4, 9, T > kp;
        u.kronecker_product( v, kp );
        Matrix< 4, 3, T > kr;
        u.khatri_rao_product( v, kr );
        Matrix< 3, 3, T > id, d;
        identity( id );
        id.diag( Vector< 3, T >( T( 2 )));
        d.set_dct();
        Matrix< 2, 3, T > c( u );
        c.convolve( w );
        Matrix< 1, 3, T > sr;
        u.sum_rows( sr );
        Matrix< 2, 1, T > sc;
        u.sum_columns( sc );
        const Matrix< 3, 2, T > odd;
        Matrix< 1, 2, T > so;
        odd.sum_rows( so );
        keep( u.frobenius_norm( )); 
        keep( Matrix< 2, 2, T >::IDENTITY.array[0] ); keep( Matrix< 2, 3, T >::ZERO.array[0] );
    } );
}
template< class T > static void mat_search()
{
    Matrix< 2, 2, T > a, b;
    T x[2][2], y[2][2];
    vu::mat( a, x, "a" );
    vu::mat( b, y, "b" );
    const Matrix< 2, 2, T >& u = a;
    const Matrix< 2, 2, T >& v = b;
    const T t = vp::inf_< T >( "t" );
    switch( vp_pick( "what", -1, 6 ))
    {
      case 0: vp::threads( [&] { keep( u == v ); keep( u != v ); } ); break;
      case 1: vp::threads( [&] { keep( u.equals( v, t )); } ); break;
      case 2: vp::threads( [&] { keep( u.get_min( )); keep( u.get_max( )); } ); break;
      case 3: vp::threads( [&] { keep( u.get_abs_min( )); keep( u.get_abs_max( )); } ); break;
      case 4: vp::threads( [&] { keep( u.nnz( )); keep( u.nnz( t )); } ); break;
      default: vp::threads( [&] { Matrix< 2, 2, T > r( u ); r.threshold( t ); } );
    }
}
template< class T > static void mat_quantize()
{
    Matrix< 2, 2, T > a;
    T x[2][2];
    vu::mat( a, x, "a" );
    const T t = vp::inf_< T >( "t" );
    for( int i = 0; i < 4; ++i )
        vp::assume( x[i / 2][i % 2] >= T( 0 ));
    for( int i = 0; i < 4; ++i )
        vp::assume( x[i / 2][i % 2] <= t );
    vp::assume( t > T( 0 ));
    const Matrix< 2, 2, T >& u = a;
    vp::threads( [&] {
        Matrix< 2, 2, unsigned char > q;
        u.quantize_to( q, T( 0 ), t );
        Matrix< 2, 2, T > r;
        q.dequantize( r, T( 0 ), t );
    } );
}
template< size_t M, class T > static void square()
{
    Matrix< M, M, T > a;
    T x[M][M];
    vu::mat( a, x, "a" );
    const Matrix< M, M, T >& u = a;
    vp::threads( [&] {
        Matrix< M, M, T > r( u );
        keep( u.det( )); keep( compute_determinant( u ));
        Matrix< M - 1, M - 1, T > mi;
        u.get_minor( mi, 1, 0 );
        u.get_adjugate( r ); u.get_cofactors( r );
        r.diag( Vector< M, T >( T( 1 )));
    } );
}
template< size_t M, class T > static void invert()
{
    Matrix< M, M, T > a;
    T x[M][M];
    vu::mat( a, x, "a" );
    const Matrix< M, M, T >& u = a;
    vp::threads( [&] {
        Matrix< M, M, T > r;
        keep( u.inverse( r ));
    } );
}
template< class T > static void definite()
{
    Matrix< 3, 3, T > a;
    T x[3][3];
    vu::mat( a, x, "a" );
    const Matrix< 3, 3, T >& u = a;
    vp::threads( [&] { keep( is_positive_definite( u )); } );
}
template< class T > static void transforms()
{
    Matrix< 4, 4, T > a;
    Vector< 3, T > b;
    T x[4][4], y[3];
    vu::mat( a, x, "a" );
    vu::vec( b, y, "b" );
    const T t = vp::inf_< T >( "t" );
    const Matrix< 4, 4, T >& u = a;
    const Vector< 3, T >& v = b;
    vp::threads( [&] {
        Matrix< 4, 4, T > m( u );
        m.rotate( t, v ); m.rotate_x( t ); m.rotate_y( t ); m.rotate_z( t );
        m.pre_rotate_x( t ); m.pre_rotate_y( t ); m.pre_rotate_z( t );
        m.scale( v ); m.scale( t, t, t ); m.set_translation( v ); m.set_translation( t, t, t ); m.scale_translation( v );
        keep( m.get_translation( )); keep( u.get_translation( ));
        keep( u * v );
        keep( u * Vector< 4, T >( v, t ));
        keep( create_translation( v ));
        keep( Matrix< 4, 4, T >::IDENTITY.array[0] );
        Vector< 3, T > r( v );
        r.rotate( t, Vector< 3, T >( T( 0 ), T( 0 ), T( 1 )));
    } );
}
template< class T > static void quats()
{
    Quaternion< T > a, b;
    for( int i = 0; i < 4; ++i )
    {
        a.array[i] = vp::inf_< T >( "a", i );
        b.array[i] = vp::inf_< T >( "b", i );
    }
    vp::assume( a.array[3] > T( 0 ));
    vp::assume( b.array[3] > T( 0 ));
    const T t = vp::inf_< T >( "t" );
    vp::assume( t > T( 0 ));
    Vector< 3, T > c( t, t, t );
    const Quaternion< T >& u = a;
    const Quaternion< T >& v = b;
    const Vector< 3, T >& w = c;
    vp::threads( [&] {
        Quaternion< T > r( u ), q;
        r = u + v; r = u - v; r = u * v; r = -u; r = u * t; r = u / t;
        r = u + w; r = u - w; r = u * w;
        r += u; r -= v; r *= u; r *= t; r /= t; r += w; r -= w; r *= w;
        keep( u.get_conjugate( )); r.conjugate();
        keep( u.dot( v )); keep( u.cross( v ));
        keep( u.squared_abs( ));
        q = v;
        r.set( t, t, t, t );
        keep( u.x( )); keep( u.w( ));
        keep( Quaternion< T >::IDENTITY.array[0] ); keep( Quaternion< T >::QUATERI.array[0] );
    } );
}
template< class T > static void quat_rotation()
{
    Quaternion< T > a;
    for( int i = 0; i < 4; ++i )
        a.array[i] = vp::inf_< T >( "a", i );
    vp::assume( a.array[3] > T( 0 ));
    const Quaternion< T >& u = a;
    vp::threads( [&] {
        keep( u.abs( )); keep( u.get_normalized( ));
        Quaternion< T > r( u );
        r.normalize(); keep( r.inverse( ));
        keep( u.get_rotation_matrix( ));
        Matrix< 4, 4, T > m;
        u.get_rotation_matrix( m );
    } );
}
template< class T > static void quat_slerp()
{
    Quaternion< T > a, b;
    a.array[0] = T( 0.6 ); a.array[1] = T( 0 ); a.array[2] = T( 0 ); a.array[3] = T( 0.8 );
    switch( vp_pick( "what", -1, 3 ))
    {
      case 0: b = a; break;
      case 1: b.array[0] = T( 0 ); b.array[1] = T( 0 ); b.array[2] = T( 0 ); b.array[3] = T( 1 ); break;
      default: b.array[0] = T( 0 ); b.array[1] = T( 0.6 ); b.array[2] = T( 0 ); b.array[3] = T( -0.8 );
    }
    const T t = vp::inf_< T >( "t" );
    const Quaternion< T >& u = a;
    const Quaternion< T >& v = b;
    vp::threads( [&] { keep( Quaternion< T >::slerp( t, u, v )); } );
}
template< class T > static void quat_matrix()
{
    Matrix< 3, 3, T > m;
    T x[3][3];
    vu::mat( m, x, "m" );
    const Matrix< 3, 3, T >& u = m;
    vp::threads( [&] { Quaternion< T > q; q.set( u ); Quaternion< T > p( u ); keep( p ); } );
}
template< class T > static void views()
{
    Frustum< T > a;
    for( int i = 0; i < 6; ++i )
        a.array[i] = vp::inf_< T >( "f", i );
    vp::assume( a.array[0] < a.array[1] );
    vp::assume( a.array[2] < a.array[3] );
    vp::assume( a.array[4] > T( 0 ));
    vp::assume( a.array[5] > a.array[4] );
    const T t = vp::inf_< T >( "t" );
    const Frustum< T >& f = a;
    vp::threads( [&] {
        keep( f.compute_matrix( )); keep( f.compute_ortho_matrix( ));
        keep( f.get_width( )); keep( f.get_height( ));
        keep( f.left( )); keep( f.far_plane( ));
        Frustum< T > g( f );
        g.adjust_near( t );
        g.apply_jitter( Vector< 2, T >( t, t ));
        g = f;
        g.set( t, t, t, t, t, t );
        keep( Frustum< T >::DEFAULT.left( ));
    } );
}
template< class T > static void culling( bool box )
{
    FrustumCuller< T > c;
    c.setup( Matrix< 4, 4, T >::IDENTITY );
    Vector< 4, T > s;
    T x[4];
    vu::vec( s, x, "s" );
    vp::assume( x[3] > T( 0 ));
    const FrustumCuller< T >& f = c;
    const Vector< 4, T >& v = s;
    const Vector< 2, T > r( x[0], x[1] ), q( x[2], x[3] ), p( T( 0 ), T( 1 ));
    if( box )
        vp::threads( [&] { keep( f.test_aabb( r, q, p )); } );
    else
        vp::threads( [&] { keep( f.test_sphere( v )); } );
}
template< class T > static void culler_setup()
{
    Matrix< 4, 4, T > m( Matrix< 4, 4, T >::IDENTITY );
    m( 0, 3 ) = vp::inf_< T >( "t" );
    const Matrix< 4, 4, T >& u = m;
    vp::threads( [&] { FrustumCuller< T > f; f.setup( u ); } );
}
template< class T > static void rays()
{
    Vector< 4, T > s;
    T x[4];
    vu::vec( s, x, "s" );
    const Vector< 3, T > o( T( 0 ), T( 0 ), T( 0 )), d( T( 1 ), T( 2 ), T( 2 ));
    const Intersection< T > i( o, d );
    const Vector< 4, T >& v = s;
    vp::threads( [&] { T t = T( 0 ); keep( i.test_sphere( v, t )); Intersection< T > j( o, d ); keep( j ); } );
}
template< class T > static void boxes()
{
    Vector< 3, T > a, b, c;
    T x[3], y[3], z[3];
    vu::vec( a, x, "a" );
    vu::vec( b, y, "b" );
    vu::vec( c, z, "c" );
    const AABB< T > u( a, b );
    const Vector< 3, T >& v = c;
    switch( vp_pick( "what", -1, 4 ))
    {
      case 0: vp::threads( [&] {
            keep( u.getCenter( )); keep( u.getDimension( )); keep( u.getMin( )); keep( u.getMax( ));
            AABB< T > r( u ); r += T( 1 ); r -= T( 1 ); r *= T( 2 ); r /= T( 2 ); r = u + T( 1 ); r = u * T( 2 );
            r.setMin( v ); r.setMax( v ); r.set( v, v ); r.setEmpty(); keep( AABB< T >::makeUnitBox( ));
        } ); break;
      case 1: { AABB< T > w( u ); vp::threads( [&] { keep( w.isIn( v )); keep( w.isIn2d( v )); } ); break; }
      case 2: vp::threads( [&] { AABB< T > r( u ); r.merge( v ); } ); break;
      default: vp::threads( [&] { keep( u.isEmpty( )); keep( u == u ); AABB< T > r; r.merge( u ); } );
    }
}
template< class T > static void filters()
{
    T x[4];
    for( int i = 0; i < 4; ++i )
        x[i] = vp::inf_< T >( "x", i );
    LowpassFilter< 3, T > shared( .5f );
    shared.add( x[0] );
    const LowpassFilter< 3, T >& s = shared;
    vp::threads( [&] {
        keep( s.get( )); keep( *s );
        LowpassFilter< 3, T > f( .5f );
        for( int i = 0; i < 4; ++i )
            f.add( x[i] );
        f.set_smooth_factor( .25f );
        keep( f.get( ));
    } );
}
template< class T > static void qr()
{
    Matrix< 2, 2, T > a;
    T x[2][2];
    vu::mat( a, x, "a" );
    vp::assume( x[0][0] * x[1][1] - x[0][1] * x[1][0] > T( 0 ));
    const Matrix< 2, 2, T >& u = a;
    vp::threads( [&] {
        Matrix< 2, 2, T > q, r;
        qr_decompose_gram_schmidt( u, q, r );
    } );
}

template< size_t M, size_t N, size_t P, class T > static void mat_product()
{
    Matrix< M, N, T > a;
    Matrix< N, P, T > b;
    Matrix< N, N, T > c;
    T x[M][N], y[N][P], z[N][N];
    vu::matmod( a, x, "a" );
    vu::matmod( b, y, "b" );
    vu::matmod( c, z, "c" );
    const T s = vp::mod< T >( "s" );
    vp::assume( s > T( 0 ));
    const Matrix< M, N, T >& u = a;
    const Matrix< N, P, T >& v = b;
    const Matrix< N, N, T >& w = c;
    vp::threads( [&] {
        Matrix< M, P, T > r = u * v;
        r.multiply( u, v );
        Matrix< N, N, T > q( w );
        q *= w; q = w * w; q *= q;
        q = q * s; q = q / s;
        Matrix< M + N, N + P, T > d;
        d.direct_sum( u, v );
        keep( d( 0, 0 )); keep( u.array[0] );
        const T* p = v; keep( p[0] );
        Matrix< M, N, double > f;
        f.cast_from( u );
        Matrix< M, N, T > g;
        g = x; g = &x[0][0];
        keep( g != u );
    } );
}
template< class T > static void mat_misc()
{
    Matrix< 4, 4, T > a;
    Vector< 4, T > b;
    Vector< 3, T > c;
    T x[4][4], y[4], z[3];
    vu::mat( a, x, "a" );
    vu::vec( b, y, "b" );
    vu::vec( c, z, "c" );
    const Matrix< 4, 4, T >& u = a;
    const Vector< 4, T >& v = b;
    const Vector< 3, T >& w = c;
    vp::threads( [&] {
        Matrix< 4, 4, T > r;
        r.tensor( v, v ); r.tensor( w, w );
        Matrix< 2, 4, T > sr; u.sum_rows( sr );
        Matrix< 4, 2, T > sc; u.sum_columns( sc );
        keep( u.frobenius_norm( )); keep( u.p_norm( 1 )); keep( u.p_norm( 2 ));
        keep( r.x( )); keep( r.y( )); keep( r.z( ));
        set_to_identity_functor< Matrix< 4, 4, T > >()( r );
        set_to_zero_functor< Matrix< 4, 4, T > >()( r );
        identity( r );
        keep( manhattan( v ));
    } );
}
template< class T > static void created()
{
    Matrix< 4, 4, T > a;
    T x[4][4];
    vu::mat( a, x, "a" );
    const T t = vp::inf_< T >( "t" );
    const Matrix< 4, 4, T >& u = a;
    const Vector< 3, T > k( T( 0 ), T( 0 ), T( 1 ));
    vp::threads( [&] {
        keep( create_rotation( t, k )); keep( create_scaling( k )); keep( create_scaling( t ));
        Matrix< 4, 4, T > m( u );
        apply_rotation( m, t, k[0], k[1], k[2] );
        apply_translation( m, t, t, t );
    } );
}
template< class T > static void vec_misc()
{
    Vector< 3, T > a, b;
    T x[3], y[3];
    vu::vec( a, x, "a" );
    vu::vec( b, y, "b" );
    const T t = vp::inf_< T >( "t" );
    const Vector< 3, T >& u = a;
    const Vector< 3, T >& v = b;
    const Vector< 4, T > p( T( 0 ), T( 0 ), T( 1 ), t );
    switch( vp_pick( "what", -1, 5 ))
    {
      case 0: vp::threads( [&] { Vector< 3, T > r( u ); r.clamp( T( -1 ), T( 1 )); } ); break;
      case 1: vp::threads( [&] { keep( vmml::min( u, v )); } ); break;
      case 2: vp::threads( [&] { keep( vmml::max( u, v )); } ); break;
      case 3: vp::threads( [&] { keep( p.project_point_onto_plane( u )); keep( p.distance_to_plane( v )); } ); break;
      default: vp::threads( [&] {
            keep( t * u ); keep( math::squared( t ));
            Vector< 3, int > i( u ); keep( i );
            Vector< 3, T > r( u ); r.reciprocal_safe();
        } );
    }
}
template< class T > static void scalars()
{
    const T s = vp::inf_< T >( "s" ), t = vp::inf_< T >( "t" );
    vp::threads( [&] {
        keep( math::pythag( s, t )); keep( math::sign( s, t )); keep( math::squared( s ));
        keep( math::abs_less< T >()( s, t )); keep( math::abs_greater< T >()( s, t ));
        keep( vmml::equals( s, t ));
    } );
}
template< class T > static void quantizing()
{
    Matrix< 2, 2, T > a;
    T x[2][2];
    vu::mat( a, x, "a" );
    vp::assume( x[0][0] < x[0][1] );
    const Matrix< 2, 2, T >& u = a;
    vp::threads( [&] {
        Matrix< 2, 2, unsigned char > q;
        T mn, mx;
        u.quantize( q, mn, mx );
    } );
}
template< class T > static void perspective()
{
    const T t = vp::inf_< T >( "t" ), n = vp::inf_< T >( "n" );
    vp::threads( [&] { Frustum< T > f; f.set_perspective( T( 60 ), t, n, t ); } );
}
#ifdef VP_BALANCE
// a filter in use for long: the values that left the window are gone
template< size_t M, class T > static void long_run( const float factor )
{
    LowpassFilter< M, T > f( factor );
    const T x = vp::inf_< T >( "x" ), y = vp::inf_< T >( "y" );
    const size_t n = 4 * 512 / sizeof( T ); // several blocks of a deque
    vp::threads( [&] {
        for( size_t i = 0; i < n; ++i )
            f.add( i % 2 ? x : y );
    } );
}
VP_REAL( run1f ) { long_run< 1, float >( .5f ); }
VP_REAL( run3f ) { long_run< 3, float >( .5f ); }
VP_REAL( run4d ) { long_run< 4, double >( .25f ); }
#endif
#ifdef VMMLIB_SAFE_ACCESSORS
template< class T > static void rejected()
{
    const Matrix< 2, 3, T > u;
    const Vector< 3, T > v;
    const size_t r = vp::in< unsigned >( "r" ), c = vp::in< unsigned >( "c" );
    vp::threads( [&] {
        try { keep( u.at( r, c )); } catch( ... ) {}
        try { keep( v.at( r )); } catch( ... ) {}
        try { keep( u.get_row( r )); } catch( ... ) {}
        try { keep( u.get_column( c )); } catch( ... ) {}
    } );
}
template< class T > static void rejected2()
{
    const Matrix< 3, 3, T > u;
    const Vector< 3, T > v;
    const size_t r = vp::in< uint64_t >( "r" ), c = vp::in< uint64_t >( "c" );
    switch( vp_pick( "what", -1, 7 ))
    {
      case 0: vp::threads( [&] { Matrix< 3, 3, T > m( u ); try { m.set_row( r, v ); } catch( ... ) {} } ); break;
      case 1: vp::threads( [&] { Matrix< 3, 3, T > m( u ); try { m.set_column( c, v ); } catch( ... ) {} } ); break;
      case 2: vp::threads( [&] { Matrix< 2, 2, T > m; try { u.get_sub_matrix( m, r, c ); } catch( ... ) {} } ); break;
      case 3: vp::threads( [&] { Matrix< 3, 3, T > m( u ); const Matrix< 2, 2, T > n; try { m.set_sub_matrix( n, r, c ); } catch( ... ) {} } ); break;
      case 4: vp::threads( [&] { Matrix< 2, 2, T > m; try { u.get_minor( m, r, c ); } catch( ... ) {} } ); break;
      case 5: vp::threads( [&] { Matrix< 1, 3, T > m; try { u.get_row( r, m ); } catch( ... ) {} } ); break;
      default: vp::threads( [&] { Matrix< 3, 1, T > m; try { u.get_column( c, m ); } catch( ... ) {} } );
    }
}
#endif

VP_REAL( va3f ) { vec_arith< 3, float >(); }
VP_REAL( va4d ) { vec_arith< 4, double >(); }
VP_REAL( va2i ) { vec_arith< 2, int >(); }
VP_REAL( vl3f ) { vec_length< 3, float >(); }
VP_REAL( vl4d ) { vec_length< 4, double >(); }
VP_REAL( vof ) { vec_order< float >(); }
VP_REAL( vod ) { vec_order< double >(); }
VP_REAL( vsf ) { vec_scale< float >(); }
VP_REAL( v3f ) { vec3< float >(); }
VP_REAL( v3d ) { vec3< double >(); }
VP_REAL( v4f ) { vec4< float >(); }
VP_REAL( v4d ) { vec4< double >(); }
VP_REAL( ma23f ) { mat_arith< 2, 3, float >(); }
VP_REAL( ma44d ) { mat_arith< 4, 4, double >(); }
VP_REAL( ma32i ) { mat_arith< 3, 2, int >(); }
VP_REAL( msf ) { mat_special< float >(); }
VP_REAL( msd ) { mat_special< double >(); }
VP_REAL( mqf ) { mat_search< float >(); }
VP_REAL( mqd ) { mat_search< double >(); }
VP_REAL( mquf ) { mat_quantize< float >(); }
VP_REAL( sq2f ) { square< 2, float >(); }
VP_REAL( sq3f ) { square< 3, float >(); }
VP_REAL( sq4d ) { square< 4, double >(); }
VP_REAL( inv2f ) { invert< 2, float >(); }
VP_REAL( inv3d ) { invert< 3, double >(); }
VP_REAL( inv4f ) { invert< 4, float >(); }
VP_REAL( deff ) { definite< float >(); }
VP_REAL( trf ) { transforms< float >(); }
VP_REAL( trd ) { transforms< double >(); }
VP_REAL( qf ) { quats< float >(); }
VP_REAL( qd ) { quats< double >(); }
VP_REAL( qrf ) { quat_rotation< float >(); }
VP_REAL( qrd ) { quat_rotation< double >(); }
VP_REAL( slf ) { quat_slerp< float >(); }
VP_REAL( sld ) { quat_slerp< double >(); }
VP_REAL( qmf ) { quat_matrix< float >(); }
VP_REAL( frf ) { views< float >(); }
VP_REAL( frd ) { views< double >(); }
VP_REAL( csf ) { culling< float >( false ); }
VP_REAL( cbf ) { culling< float >( true ); }
VP_REAL( cud ) { culler_setup< double >(); }
VP_REAL( rayf ) { rays< float >(); }
VP_REAL( rayd ) { rays< double >(); }
VP_REAL( boxf ) { boxes< float >(); }
VP_REAL( boxd ) { boxes< double >(); }
VP_REAL( lpf ) { filters< float >(); }
VP_REAL( lpd ) { filters< double >(); }
VP_REAL( qrdf ) { qr< float >(); }
VP_REAL( qrdd ) { qr< double >(); }
VP_REAL( mp234f ) { mat_product< 2, 3, 4, float >(); }
VP_REAL( mp333d ) { mat_product< 3, 3, 3, double >(); }
VP_REAL( mp444f ) { mat_product< 4, 4, 4, float >(); }
VP_REAL( mp213i ) { mat_product< 2, 1, 3, int >(); }
VP_REAL( mmf ) { mat_misc< float >(); }
VP_REAL( mmd ) { mat_misc< double >(); }
VP_REAL( crf ) { created< float >(); }
VP_REAL( crd ) { created< double >(); }
VP_REAL( vmf ) { vec_misc< float >(); }
VP_REAL( vmd ) { vec_misc< double >(); }
VP_REAL( scf ) { scalars< float >(); }
VP_REAL( scd ) { scalars< double >(); }
VP_REAL( qzf ) { quantizing< float >(); }
VP_REAL( pef ) { perspective< float >(); }
VP_REAL( ped ) { perspective< double >(); }
#ifdef VMMLIB_SAFE_ACCESSORS
VP_FP( rjf ) { rejected< float >(); }
VP_FP( rjd ) { rejected< double >(); }
VP_FP( rk3f ) { rejected2< float >(); }
VP_FP( rk3d ) { rejected2< double >(); }
#endif
