// random fills and perturbation over an arbitrary deterministic generator: every seed selects an arbitrary sequence
//@ variant release -DNDEBUG
//@ flags -DVP_KEEP_RAND
#include "vu.h"
#include <cstdlib>
using namespace vmml;

static unsigned g_seed = 1, g_first = 0; // current seed; the seed that selects sequence 0
static int g_n = 0, g_seeded = 0;
static const int SEQ = 64;
static bool g_bits = false;
static int draw( int k )
{
    if( g_bits )
        return int( vp_i32( "draw", k ) & 0x7fffffffu );
    const double x = vp_f64( "draw", k );
    vp::assume( x >= 0. );
    vp::assume( x <= double( RAND_MAX ));
    return int( x );
}
extern "C" int rand() noexcept
{
    // sequence 0 for the first seed, sequence 1 for any other
    const int k = ( g_seed == g_first ? 0 : SEQ ) + g_n++;
    return draw( k );
}
extern "C" void srand( unsigned s ) noexcept
{
    g_seed = s;
    g_n = 0;
    ++g_seeded;
}
static void start( unsigned s ) { g_first = s; g_seed = s; g_n = 0; g_seeded = 0; }

template< class C, size_t K, class T > static void fill()
{
    const int seed = int( vp_i32( "seed", -1 ) & 0x7fffffffu );
    start( unsigned( seed ));
    g_seed = seed + 1u; // something else was going on before
    C a, b;
    for( size_t i = 0; i < K; ++i )
        a.array[i] = b.array[i] = T( 7 );
    a.set_random( seed );
    for( size_t i = 0; i < K; ++i )
    {
        vp::le( T( -1 ), a.array[i], "random elements are at least -1", int( i ));
        vp::le( a.array[i], T( 1 ), "random elements are at most 1", int( i ));
    }
    vp::check( g_seeded == 1, "a given seed is used" );
    rand(); // other users of the generator
    b.set_random( seed );
    for( size_t i = 0; i < K; ++i )
        vp::eq( a.array[i], b.array[i], "the same seed gives the same elements", int( i ));
}

// without a seed the generator runs on
template< class C, size_t K, class T > static void cont()
{
    start( 5 );
    C a, b, c;
    a.set_random( 5 );
    b.set_random();
    vp::check( g_seeded == 1, "without a seed the generator is not seeded" );
    for( size_t i = 0; i < K; ++i )
    {
        vp::le( T( -1 ), b.array[i], "random elements are at least -1", int( i ));
        vp::le( b.array[i], T( 1 ), "random elements are at most 1", int( i ));
    }
    const int n = g_n;
    vp::check( n >= int( 2 * K ), "every element gets a draw of its own" );
    c.set_random( -1 );
    vp::check( g_seeded == 1, "a negative seed does not seed the generator" );
}

// different draws give different elements, the extreme draws the ends of the interval
template< class C, size_t K, class T > static void spread()
{
    start( 3 );
    C a;
    double d[K];
    for( size_t i = 0; i < K; ++i )
        d[i] = double( draw( int( i )));
    a.set_random( 3 );
    if( vp_pick( "ext", -1, 2 ))
    {
        const bool up = vp_pick( "up", -1, 2 );
        for( size_t i = 0; i < K; ++i )
            vp::assume( d[i] == ( up ? double( RAND_MAX ) : 0. ));
        for( size_t i = 0; i < K; ++i )
            vp::eq( a.array[i], up ? T( 1 ) : T( -1 ), "the extreme draws give the ends of the interval", int( i ));
        return;
    }
    for( size_t i = 1; i < K; ++i )
        vp::assume( d[i - 1] + 4096. <= d[i] ); // ( closer draws may round to the same float )
    for( size_t i = 0; i < K; ++i )
        for( size_t j = 0; j < i; ++j )
            vp::check( a.array[i] < a.array[j] || a.array[j] < a.array[i], "elements differ when the draws differ" );
}

template< size_t M, class T > static void perturb( bool dflt )
{
    start( 2 );
    g_bits = true;
    Vector< M, T > v;
    T a[M];
    vu::vec( v, a, "v" );
    const T p = dflt ? T( 0.0001 ) : vp::inf_< T >( "p" );
    if( dflt )
        v.perturb();
    else
        v.perturb( p );
    for( size_t i = 0; i < M; ++i )
        vp::check( v.array[i] == a[i] + p || v.array[i] == a[i] - p, "perturb() moves every component by plus or minus the parameter" );
}
// both signs occur, independently
template< size_t M, class T > static void signs()
{
    start( 2 );
    g_bits = true;
    Vector< M, T > v;
    T a[M];
    vu::vec( v, a, "v" );
    const T p = vp::inf_< T >( "p" );
    vp::assume( p > T( 0 ));
    v.perturb( p );
    // draws of different parity give different directions
    bool up[M], odd[M];
    for( size_t i = 0; i < M; ++i )
    {
        odd[i] = draw( int( i )) & 1;
        up[i] = v.array[i] > a[i];
    }
    for( size_t i = 1; i < M; ++i )
        vp::check(( odd[i] == odd[0] ) == ( up[i] == up[0] ), "each direction is drawn on its own" );
}

typedef Matrix< 2, 3, float > M23f;
typedef Matrix< 3, 2, double > M32d;
typedef Matrix< 4, 4, float > M44f;
typedef Vector< 3, float > V3f;
typedef Vector< 4, double > V4d;
VP_REAL( fillm23f ) { fill< M23f, 6, float >(); }
VP_REAL( fillm32d ) { fill< M32d, 6, double >(); }
VP_REAL( fillm44f ) { fill< M44f, 16, float >(); }
VP_REAL( fillv3f ) { fill< V3f, 3, float >(); }
VP_REAL( fillv4d ) { fill< V4d, 4, double >(); }
VP_REAL( contm23f ) { cont< M23f, 6, float >(); }
VP_REAL( contm32d ) { cont< M32d, 6, double >(); }
VP_REAL( contv3f ) { cont< V3f, 3, float >(); }
VP_REAL( contv4d ) { cont< V4d, 4, double >(); }
VP_REAL( spreadm23f ) { spread< M23f, 6, float >(); }
VP_REAL( spreadm32d ) { spread< M32d, 6, double >(); }
VP_REAL( spreadv3f ) { spread< V3f, 3, float >(); }
VP_REAL( spreadv4d ) { spread< V4d, 4, double >(); }
VP_REAL( perturb3f ) { perturb< 3, float >( false ); }
VP_REAL( perturb4d ) { perturb< 4, double >( false ); }
VP_REAL( perturb2f ) { perturb< 2, float >( true ); }
VP_REAL( perturb3d ) { perturb< 3, double >( true ); }
VP_REAL( signs3f ) { signs< 3, float >(); }
VP_REAL( signs3d ) { signs< 3, double >(); }
