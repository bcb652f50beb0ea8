// construction, assignment, conversion: every element ends up where and as the source says
//@ variant release -DNDEBUG
#include "vu.h"
#include <vector>
#include <vmmlib/util.hpp>
using namespace vmml;

// a value whose integral part the target type can represent
template< class T, class U > static void in_range( const U& u )
{
    vp::assume( u > ( T( -1 ) < T( 0 ) ? sizeof( T ) == 1 ? U( -128 ) : U( -2e9 ) : U( -1 )) &
                u < ( sizeof( T ) == 1 ? U( T( -1 ) < T( 0 ) ? 127 : 255 ) : U( 2e9 )));
}
// M x N (T) <- P x Q (U): common part converted, rest zero
template< size_t M, size_t N, class T, size_t P, size_t Q, class U > static void mat_from_mat()
{
    Matrix< P, Q, U > s;
    U b[P][Q];
    vu::mat( s, b, "s" );
    if( !std::is_floating_point< T >::value && std::is_floating_point< U >::value )
        for( size_t i = 0; i < P * Q; ++i )
            in_range< T >( s.array[i] );
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matany( m, a, "m" );
    const uint64_t how = vp_pick( "how", -1, 2 );
    if( how == 0 ) m = s;
    else m = Matrix< M, N, T >( s );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
            vp::eq( m.array[ j * M + i ], i < P && j < Q ? static_cast< T >( b[i][j] ) : T( 0 ),
                    "converted element, or zero outside the source", int( i * N + j ));
    vu::same( s, b, "the source is unchanged" );
}

// every pair of shapes
template< size_t M, size_t N > static void shapes()
{
    switch( vp_pick( "shape", -1, 12 ))
    {
      case 0: mat_from_mat< M, N, float, 1, 1, double >(); break;
      case 1: mat_from_mat< M, N, float, 1, 2, double >(); break;
      case 2: mat_from_mat< M, N, float, 1, 3, double >(); break;
      case 3: mat_from_mat< M, N, float, 2, 1, double >(); break;
      case 4: mat_from_mat< M, N, float, 2, 2, double >(); break;
      case 5: mat_from_mat< M, N, float, 2, 3, double >(); break;
      case 6: mat_from_mat< M, N, float, 3, 1, double >(); break;
      case 7: mat_from_mat< M, N, float, 3, 2, double >(); break;
      case 8: mat_from_mat< M, N, float, 3, 3, double >(); break;
      case 9: mat_from_mat< M, N, float, 2, 4, double >(); break;
      case 10: mat_from_mat< M, N, float, 4, 2, double >(); break;
      case 11: mat_from_mat< M, N, float, 5, 5, double >(); break;
    }
}

template< size_t M, size_t N, class T > static void mat_ctor()
{
    const Matrix< M, N, T > d;
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            vp::eq( d.array[ j * M + i ], T( M == N && i == j ), "default: identity if square, else zero", int( i * N + j ));
            vp::eq(( Matrix< M, N, T >::ZERO.array[ j * M + i ] ), T( 0 ), "ZERO", int( i * N + j ));
        }
    Matrix< M, N, T > m;
    T a[M][N], src[M][N], cm[M * N], rm[M * N];
    vu::matany( m, a, "m" );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
            src[i][j] = cm[ j * M + i ] = rm[ i * N + j ] = vp::in< T >( "s", int( i * N + j ));
    const T f = vp::in< T >( "f" );
    const uint64_t how = vp_pick( "how", -1, 13 );
    bool filled = false, zero = false;
    switch( how )
    {
      case 0: m = static_cast< const T* >( rm ); break;
      case 1: m.set( rm, rm + M * N ); break;
      case 2: m.set( rm, rm + M * N, true ); break;
      case 3: m.set( cm, cm + M * N, false ); break;
      case 4: { std::vector< T > v( rm, rm + M * N ); m = v; break; }
      case 5: m.zero(); zero = true; break;
      case 6: m.fill( f ); filled = true; break;
      case 7: m = f; filled = true; break;
      case 8: { Matrix< M, N, T > s; for( size_t i = 0; i < M * N; ++i ) s.array[i] = cm[i]; m = s; break; }
      case 9: { Matrix< M, N, T > s; for( size_t i = 0; i < M * N; ++i ) s.array[i] = cm[i]; m = Matrix< M, N, T >( s ); break; }
      case 10: m = src; break;
      case 11: { std::vector< T > v( rm, rm + M * N ); m.set( v.begin(), v.end( )); break; }
      default: { Matrix< M, N, T > s; for( size_t i = 0; i < M * N; ++i ) s.array[i] = cm[i]; m.cast_from( s ); break; }
    }
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
            vp::eq( m.array[ j * M + i ], zero ? T( 0 ) : filled ? f : src[i][j], "assigned element", int( i * N + j ));
    m = *&m;
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
            vp::eq( m.array[ j * M + i ], zero ? T( 0 ) : filled ? f : src[i][j], "self assignment", int( i * N + j ));
}

// set( begin, end ) stops at end (both layouts) and never reads past it
template< size_t M, size_t N, class T > static void mat_short( bool rowmajor )
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::matany( m, a, "m" );
    const size_t k = vp_pick( "k", -1, M * N + 1 );
    T* s = new T[ k ? k : 1 ];
    for( size_t i = 0; i < k; ++i ) s[i] = vp::in< T >( "s", int( i ));
    m.set( s, s + k, rowmajor );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < N; ++j )
        {
            const size_t p = rowmajor ? i * N + j : j * M + i;
            vp::eq( m.array[ j * M + i ], p < k ? s[p] : a[i][j], "copies up to end, keeps the rest", int( i * N + j ));
        }
    delete[] s;
}

template< size_t M, class T > static void mat_identity()
{
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < M; ++j )
            vp::eq(( Matrix< M, M, T >::IDENTITY.array[ j * M + i ] ), T( i == j ), "IDENTITY", int( i * M + j ));
    Matrix< M, M, T > m;
    T a[M][M];
    vu::matany( m, a, "m" );
    identity( m );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < M; ++j )
            vp::eq( m.array[ j * M + i ], T( i == j ), "identity( m )", int( i * M + j ));
    vu::matany( m, a, "m" );
    Matrix< M, M, T > z( m );
    set_to_identity_functor< Matrix< M, M, T > >()( m );
    set_to_zero_functor< Matrix< M, M, T > >()( z );
    for( size_t i = 0; i < M; ++i )
        for( size_t j = 0; j < M; ++j )
        {
            vp::eq( m.array[ j * M + i ], T( i == j ), "set_to_identity_functor", int( i * M + j ));
            vp::eq( z.array[ j * M + i ], T( 0 ), "set_to_zero_functor", int( i * M + j ));
        }
}

template< size_t M, class T > static void vec_ctor()
{
    const Vector< M, T > d;
    for( size_t i = 0; i < M; ++i )
    {
        vp::eq( d.array[i], T( 0 ), "default constructor is zero", int( i ));
        vp::eq(( Vector< M, T >::ZERO.array[i] ), T( 0 ), "ZERO", int( i ));
        vp::eq(( Vector< M, T >::ONE.array[i] ), T( 1 ), "ONE", int( i ));
    }
    T s[M], a[M];
    for( size_t i = 0; i < M; ++i ) s[i] = vp::in< T >( "s", int( i ));
    Vector< M - 1, T > h;
    for( size_t i = 0; i + 1 < M; ++i ) h.array[i] = s[i];
    const T f = vp::in< T >( "f" );
    const uint64_t how = vp_pick( "how", -1, 12 );
    bool filled = false;
    Vector< M, T > v;
    vu::vecany( v, a, "v" );
    switch( how )
    {
      case 0: v = Vector< M, T >( static_cast< const T* >( s )); break;
      case 1: v = static_cast< const T* >( s ); break;
      case 2: v = Vector< M, T >( f ); filled = true; break;
      case 3: v = f; filled = true; break;
      case 4: v.set( f ); filled = true; break;
      case 5: v = Vector< M, T >( h, s[ M - 1 ] ); break;
      case 6: v.set( h, s[ M - 1 ] ); break;
      case 7: v.iter_set( s, s + M ); break;
      case 8: { Vector< M, T > o( static_cast< const T* >( s )); v = o; break; }
      case 9: { Vector< M, T > o( static_cast< const T* >( s )); v = Vector< M, T >( o ); break; }
      case 10: { Vector< M, T > o( static_cast< const T* >( s )); v.cast_from( o ); break; }
      default: { Vector< M, T > o( static_cast< const T* >( s )); v.set( o ); break; }
    }
    for( size_t i = 0; i < M; ++i )
        vp::eq( v.array[i], filled ? f : s[i], "component", int( i ));
    v = *&v;
    for( size_t i = 0; i < M; ++i )
        vp::eq( v.array[i], filled ? f : s[i], "self assignment", int( i ));
    zero( v );
    for( size_t i = 0; i < M; ++i )
        vp::eq( v.array[i], T( 0 ), "zero( v )", int( i ));
}

template< class T > static void vec_named_ctor()
{
    T s[4], a[4];
    for( int i = 0; i < 4; ++i ) s[i] = vp::in< T >( "s", i );
    Vector< 2, T > v2( s[0], s[1] ); Vector< 3, T > v3( s[0], s[1], s[2] ); Vector< 4, T > v4( s[0], s[1], s[2], s[3] );
    for( int i = 0; i < 4; ++i )
    {
        if( i < 2 ) vp::eq( v2.array[i], s[i], "Vector2( x, y )", i );
        if( i < 3 ) vp::eq( v3.array[i], s[i], "Vector3( x, y, z )", i );
        vp::eq( v4.array[i], s[i], "Vector4( x, y, z, w )", i );
    }
    Vector< 2, T > u2; Vector< 3, T > u3; Vector< 4, T > u4;
    vu::vecany( u4, a, "v" );
    u2.set( s[0], s[1] ); u3.set( s[0], s[1], s[2] ); u4.set( s[0], s[1], s[2], s[3] );
    for( int i = 0; i < 4; ++i )
    {
        if( i < 2 ) vp::eq( u2.array[i], s[i], "set( x, y )", i );
        if( i < 3 ) vp::eq( u3.array[i], s[i], "set( x, y, z )", i );
        vp::eq( u4.array[i], s[i], "set( x, y, z, w )", i );
    }
    // set from a shorter / longer vector copies the common part
    vu::vecany( u4, a, "v" );
    u4.template set< 2 >( u2 );
    for( int i = 0; i < 4; ++i ) vp::eq( u4.array[i], i < 2 ? s[i] : a[i], "set from a shorter vector", i );
    u2.template set< 4 >( v4 );
    for( int i = 0; i < 2; ++i ) vp::eq( u2.array[i], s[i], "set from a longer vector", i );
    // first two components only
    vu::vecany( u4, a, "v" );
    u4.set( s[2], s[3] );
    for( int i = 0; i < 4; ++i ) vp::eq( u4.array[i], i < 2 ? s[ 2 + i ] : a[i], "set( x, y ) of a longer vector", i );
}

template< class T > static void statics()
{
    typedef Vector< 3, T > V;
    const V w[] = { V::FORWARD, V::BACKWARD, V::UP, V::DOWN, V::LEFT, V::RIGHT, V::UNIT_X, V::UNIT_Y, V::UNIT_Z };
    const int e[][3] = {{ 0, 0, -1 }, { 0, 0, 1 }, { 0, 1, 0 }, { 0, -1, 0 }, { -1, 0, 0 }, { 1, 0, 0 },
                        { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }};
    for( int k = 0; k < 9; ++k )
        for( int i = 0; i < 3; ++i )
            vp::eq( w[k].array[i], T( e[k][i] ), "static constant", k * 3 + i );
}

// element type conversion of vectors
template< size_t M, class T, class U > static void vec_conv()
{
    Vector< M, U > s;
    U b[M];
    vu::vec( s, b, "s" );
    if( !std::is_floating_point< T >::value && std::is_floating_point< U >::value )
        for( size_t i = 0; i < M; ++i )
            in_range< T >( b[i] );
    Vector< M, T > v1( s ), v2, v3;
    v2 = s;
    v3.cast_from( s );
    for( size_t i = 0; i < M; ++i )
    {
        vp::eq( v1.array[i], static_cast< T >( b[i] ), "converting constructor", int( i ));
        vp::eq( v2.array[i], static_cast< T >( b[i] ), "converting assignment", int( i ));
        vp::eq( v3.array[i], static_cast< T >( b[i] ), "cast_from", int( i ));
    }
    vu::same( s, b, "the source is unchanged" );
}

// iter_set stops at whichever range ends first
// the source is an element of the target
template< class T > static void from_own_element()
{
    Matrix< 2, 3, T > m;
    Vector< 4, T > v;
    T a[2][3], b[4];
    vu::matany( m, a, "m" );
    vu::vecany( v, b, "v" );
    const size_t r = vp_pick( "r", -1, 2 ), c = vp_pick( "c", -1, 3 ), k = vp_pick( "k", -1, 4 );
    for( size_t i = 0; i < 2; ++i )
        for( size_t j = 0; j < 3; ++j )
            if( i != r || j != c )
                a[i][j] = a[r][c];
    if( vp_bool( "how", -1 ))
        m.fill( m( r, c ));
    else
        m = m( r, c );
    vu::same( m, a, "filling a matrix with one of its elements" );
    Vector< 4, T > w( v ), u( v );
    w.set( w( 3 ), w( 2 ), w( 1 ), w( 0 ));
    const T rev[4] = { b[3], b[2], b[1], b[0] };
    vu::same( w, rev, "v.set( v.w(), v.z(), v.y(), v.x( ))" );
    w = Vector< 4, T >( w.w(), w.z(), w.y(), w.x( ));
    vu::same( w, b, "v = Vector( v.w(), v.z(), v.y(), v.x( ))" );
    u = u( k );
    v.set( v( k ));
    const T all[4] = { b[k], b[k], b[k], b[k] };
    vu::same( v, all, "v.set( component of v )" );
    vu::same( u, all, "v = component of v" );
    w = w;
    vu::same( w, b, "self assignment" );
    m = m;
    vu::same( m, a, "self assignment" );
}
template< size_t M, class T > static void vec_iter()
{
    Vector< M, T > v;
    T a[M];
    vu::vecany( v, a, "v" );
    const size_t k = vp_pick( "k", -1, M + 3 );
    T* s = new T[ k ? k : 1 ];
    for( size_t i = 0; i < k; ++i ) s[i] = vp::in< T >( "s", int( i ));
    v.iter_set( s, s + k );
    for( size_t i = 0; i < M; ++i )
        vp::eq( v.array[i], i < k ? s[i] : a[i], "iter_set", int( i ));
    delete[] s;
}

// homogeneous coordinates
template< size_t M, class T > static void homogeneous()
{
    Vector< M, T > v;
    T a[M];
    vu::vec( v, a, "v" );
    const Vector< M + 1, T > h( v );
    Vector< M + 1, T > h2;
    h2 = v;
    for( size_t i = 0; i <= M; ++i )
    {
        vp::eq( h.array[i], i < M ? a[i] : T( 1 ), "to homogeneous (constructor)", int( i ));
        vp::eq( h2.array[i], i < M ? a[i] : T( 1 ), "to homogeneous (assignment)", int( i ));
    }
    Vector< M + 1, T > q;
    T b[M + 1];
    vu::vec( q, b, "q" );
    vp::assume( b[M] != 0 );
    const Vector< M, T > p( q );
    Vector< M, T > p2;
    p2 = q;
    for( size_t i = 0; i < M; ++i )
    {
        vp::eq( p.array[i] * b[M], b[i], "from homogeneous (constructor)", int( i ));
        vp::eq( p2.array[i] * b[M], b[i], "from homogeneous (assignment)", int( i ));
    }
    const Vector< M, T > back( h );
    vu::same( back, a, "to and from homogeneous coordinates" );
}

VP_FP( ownf ) { from_own_element< float >(); }
VP_FP( owni ) { from_own_element< int >(); }
VP_FP( ctor44f ) { mat_ctor< 4, 4, float >(); }
VP_FP( ctor23d ) { mat_ctor< 2, 3, double >(); }
VP_FP( ctor31i ) { mat_ctor< 3, 1, int >(); }
VP_FP( conv_44f_33f ) { mat_from_mat< 4, 4, float, 3, 3, float >(); }
VP_FP( conv_33f_44d ) { mat_from_mat< 3, 3, float, 4, 4, double >(); }
VP_FP( conv_23d_32f ) { mat_from_mat< 2, 3, double, 3, 2, float >(); }
VP_FP( conv_33d_33f ) { mat_from_mat< 3, 3, double, 3, 3, float >(); }
VP_FP( conv_22b_22f ) { mat_from_mat< 2, 2, uint8_t, 2, 2, float >(); }
VP_FP( conv_22d_22i ) { mat_from_mat< 2, 2, double, 2, 2, int >(); }
VP_FP( shapes12 ) { shapes< 1, 2 >(); }
VP_FP( shapes22 ) { shapes< 2, 2 >(); }
VP_FP( shapes23 ) { shapes< 2, 3 >(); }
VP_FP( shapes32 ) { shapes< 3, 2 >(); }
VP_FP( shapes31 ) { shapes< 3, 1 >(); }
VP_FP( shapes24 ) { shapes< 2, 4 >(); }
VP_FP( shapes42 ) { shapes< 4, 2 >(); }
VP_FP( short23_row ) { mat_short< 2, 3, float >( true ); }
VP_FP( short23_col ) { mat_short< 2, 3, float >( false ); }
VP_FP( short33_col ) { mat_short< 3, 3, int >( false ); }
VP_FP( identity4f ) { mat_identity< 4, float >(); }
VP_FP( identity3d ) { mat_identity< 3, double >(); }
VP_FP( identity2i ) { mat_identity< 2, int >(); }
VP_FP( vctor3f ) { vec_ctor< 3, float >(); }
VP_FP( vctor4d ) { vec_ctor< 4, double >(); }
VP_FP( vctor2i ) { vec_ctor< 2, int >(); }
VP_FP( vctor4b ) { vec_ctor< 4, uint8_t >(); }
VP_FP( named_f ) { vec_named_ctor< float >(); }
VP_FP( named_i ) { vec_named_ctor< int >(); }
VP_FP( statics_f ) { statics< float >(); }
VP_FP( statics_d ) { statics< double >(); }
VP_FP( conv_22f_22i ) { mat_from_mat< 2, 2, float, 2, 2, int >(); }
VP_FP( conv_23f_32u ) { mat_from_mat< 2, 3, float, 3, 2, unsigned >(); }
VP_FP( conv_22i_22f ) { mat_from_mat< 2, 2, int, 2, 2, float >(); }
VP_FP( conv_32d_22l ) { mat_from_mat< 3, 2, double, 2, 2, int64_t >(); }
VP_FP( conv_22b_22c ) { mat_from_mat< 2, 2, uint8_t, 2, 2, int8_t >(); }
VP_FP( conv_22l_23u ) { mat_from_mat< 2, 2, int64_t, 2, 3, unsigned >(); }
VP_FP( conv_22l_23i ) { mat_from_mat< 2, 2, int64_t, 2, 3, int >(); }
VP_FP( vconv_fu ) { vec_conv< 3, float, unsigned >(); }
VP_FP( vconv_dl ) { vec_conv< 3, double, int64_t >(); }
VP_FP( vconv_li ) { vec_conv< 3, int64_t, int >(); }
VP_FP( vconv_fd ) { vec_conv< 3, float, double >(); }
VP_FP( vconv_df ) { vec_conv< 4, double, float >(); }
VP_FP( vconv_if ) { vec_conv< 2, int, float >(); }
VP_FP( vconv_fi ) { vec_conv< 4, float, int >(); }
VP_FP( vconv_bf ) { vec_conv< 4, uint8_t, float >(); }
VP_FP( viter4f ) { vec_iter< 4, float >(); }
VP_FP( viter3i ) { vec_iter< 3, int >(); }
VP_REAL( hom3f ) { homogeneous< 3, float >(); }
VP_REAL( hom2d ) { homogeneous< 2, double >(); }
VP_REAL( hom4d ) { homogeneous< 4, double >(); }
VP_FP( ctor67f ) { mat_ctor< 6, 7, float >(); }
VP_FP( conv_65f_56d ) { mat_from_mat< 6, 5, float, 5, 6, double >(); }
VP_FP( vctor9d ) { vec_ctor< 9, double >(); }
VPT_FP( ctor910d ) { mat_ctor< 9, 10, double >(); }
VPT_FP( vctor17f ) { vec_ctor< 17, float >(); }
VP_FP( ctor12f ) { mat_ctor< 1, 2, float >(); }
VP_FP( ctor21f ) { mat_ctor< 2, 1, float >(); }
VP_FP( ctor22f ) { mat_ctor< 2, 2, float >(); }
VP_FP( ctor14f ) { mat_ctor< 1, 4, float >(); }
VP_FP( ctor34f ) { mat_ctor< 3, 4, float >(); }
VP_FP( ctor43f ) { mat_ctor< 4, 3, float >(); }
VP_FP( conv_33f_44f ) { mat_from_mat< 3, 3, float, 4, 4, float >(); }
VP_FP( conv_22f_23f ) { mat_from_mat< 2, 2, float, 2, 3, float >(); }
VP_FP( conv_23f_22f ) { mat_from_mat< 2, 3, float, 2, 2, float >(); }
VP_FP( conv_32f_22f ) { mat_from_mat< 3, 2, float, 2, 2, float >(); }
VP_FP( conv_13f_31f ) { mat_from_mat< 1, 3, float, 3, 1, float >(); }
VP_FP( conv_33f_24f ) { mat_from_mat< 3, 3, float, 2, 4, float >(); }
VP_FP( conv_24f_33f ) { mat_from_mat< 2, 4, float, 3, 3, float >(); }
VP_FP( conv_44f_34f ) { mat_from_mat< 4, 4, float, 3, 4, float >(); }
VP_FP( vctor1f ) { vec_ctor< 1, float >(); }
VP_FP( vctor5f ) { vec_ctor< 5, float >(); }
VP_FP( viter5f ) { vec_iter< 5, float >(); }
VP_FP( short32_row ) { mat_short< 3, 2, float >( true ); }
VP_FP( short32_col ) { mat_short< 3, 2, float >( false ); }
VP_FP( conv_33d_44d ) { mat_from_mat< 3, 3, double, 4, 4, double >(); }
VP_FP( conv_44d_33d ) { mat_from_mat< 4, 4, double, 3, 3, double >(); }
VP_FP( conv_22d_22d ) { mat_from_mat< 2, 2, double, 2, 2, double >(); }
VP_FP( conv_32d_23i ) { mat_from_mat< 3, 2, double, 2, 3, int >(); }
VP_FP( conv_33i_22i ) { mat_from_mat< 3, 3, int, 2, 2, int >(); }
VP_FP( vconv_dd ) { vec_conv< 3, double, double >(); }
VP_FP( vconv_di ) { vec_conv< 4, double, int >(); }
VP_FP( vconv_ii ) { vec_conv< 3, int, int >(); }
VP_FP( viter3d ) { vec_iter< 3, double >(); }
VP_FP( named_d ) { vec_named_ctor< double >(); }
VP_FP( statics_i ) { statics< int >(); }
VP_FP( short33d_row ) { mat_short< 3, 3, double >( true ); }
VP_FP( short23d_col ) { mat_short< 2, 3, double >( false ); }
VP_FP( identity4d ) { mat_identity< 4, double >(); }
VP_FP( ctor33d ) { mat_ctor< 3, 3, double >(); }
VP_FP( ctor44d ) { mat_ctor< 4, 4, double >(); }
VP_FP( ownd ) { from_own_element< double >(); }
