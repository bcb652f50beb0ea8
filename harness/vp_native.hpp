// Native replay runtime: included once per harness file (after vp.h) when VP_NATIVE is defined.
// usage: prog LIST | prog HARNESS INPUTFILE     exit 0 pass, 1 property failed, 3 assumption not met
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <fstream>
#include <iostream>
#include <exception>

namespace vpn
{
typedef std::map< std::string, void (*)() > fmap;
inline fmap& fns() { static fmap m; return m; }
inline std::map< std::string, std::string >& vals() { static std::map< std::string, std::string > m; return m; }
static double tol = 0;
static int fails = 0, checks = 0, runs = 1;
static std::string again; // prefix of the inputs of the second run
static std::string nm( const char* n, int i )
{ return again + ( i < 0 ? std::string( n ) : std::string( n ) + "_" + std::to_string( i )); }
static uint64_t bits( const std::string& n )
{
    std::map< std::string, std::string >::const_iterator it = vals().find( n );
    return it == vals().end() ? 0 : strtoull( it->second.c_str(), 0, 16 );
}
static void fail( const char* l, int i, const std::string& what )
{
    ++fails;
    std::printf( "VP-FAIL %s", l );
    if( i >= 0 ) std::printf( "[%d]", i );
    std::printf( ": %s\n", what.c_str() );
    std::fflush( stdout );
}
}
#ifndef VP_TSAN
static unsigned long vp_live_n = 0;
void* operator new( std::size_t n ) { ++vp_live_n; void* p = std::malloc( n ? n : 1 ); if( !p ) std::abort(); return p; }
void* operator new[]( std::size_t n ) { return operator new( n ); }
void operator delete( void* p ) noexcept { if( p ) { --vp_live_n; std::free( p ); }}
void operator delete[]( void* p ) noexcept { operator delete( p ); }
void operator delete( void* p, std::size_t ) noexcept { operator delete( p ); }
void operator delete[]( void* p, std::size_t ) noexcept { operator delete( p ); }
#else
static unsigned long vp_live_n = 0;
#endif
vp_reg::vp_reg( const char* n, void (*f)() ) { vpn::fns()[ n ] = f; }
extern "C" {
float vp_f32( const char* n, int i ) { uint32_t b = (uint32_t)vpn::bits( vpn::nm( n, i )); float f; memcpy( &f, &b, 4 ); return f; }
double vp_f64( const char* n, int i ) { uint64_t b = vpn::bits( vpn::nm( n, i )); double f; memcpy( &f, &b, 8 ); return f; }
float vp_sp_f32( const char* n, int i ) { return vp_f32( n, i ); }
double vp_sp_f64( const char* n, int i ) { return vp_f64( n, i ); }
uint64_t vp_i64( const char* n, int i ) { return vpn::bits( vpn::nm( n, i )); }
uint32_t vp_i32( const char* n, int i ) { return (uint32_t)vpn::bits( vpn::nm( n, i )); }
uint16_t vp_i16( const char* n, int i ) { return (uint16_t)vpn::bits( vpn::nm( n, i )); }
uint8_t vp_i8( const char* n, int i ) { return (uint8_t)vpn::bits( vpn::nm( n, i )); }
bool vp_bool( const char* n, int i ) { return vpn::bits( vpn::nm( n, i )) & 1; }
uint64_t vp_pick( const char* n, int i, uint64_t m ) { uint64_t v = vpn::bits( vpn::nm( n, i )); return v < m ? v : m - 1; }
int vp_symbolic() { return 0; }
uint64_t vp_live() { return vp_live_n; }
void vp_assume( bool c )
{
    if( c ) return;
    if( vpn::fails ) std::_Exit( 1 );
    std::printf( "VP-ASSUME not met\n" );
    std::fflush( stdout );
    std::_Exit( 3 );
}
void vp_par( int ) {}
#ifdef VP_TSAN
void vp_check( bool, const char* ) {}
void vp_eq_f32( float, float, const char*, int ) {}
void vp_eq_f64( double, double, const char*, int ) {}
void vp_le_f32( float, float, const char*, int ) {}
void vp_le_f64( double, double, const char*, int ) {}
void vp_eq_i64( uint64_t, uint64_t, const char*, int ) {}
#else
void vp_check( bool c, const char* l ) { ++vpn::checks; if( !c ) vpn::fail( l, -1, "does not hold" ); }
static void vp_eqd( double g, double w, const char* l, int i )
{
    ++vpn::checks;
    if( g == w || ( g != g && w != w )) return;
    if( vpn::tol > 0 && std::fabs( g - w ) <= vpn::tol * ( 1 + std::fabs( w ))) return;
    char b[128];
    std::snprintf( b, sizeof( b ), "got %.17g want %.17g", g, w );
    vpn::fail( l, i, b );
}
void vp_eq_f32( float g, float w, const char* l, int i ) { vp_eqd( g, w, l, i ); }
void vp_eq_f64( double g, double w, const char* l, int i ) { vp_eqd( g, w, l, i ); }
static void vp_led( double a, double b, const char* l, int i )
{
    ++vpn::checks;
    if( a <= b ) return;
    if( vpn::tol > 0 && a - b <= vpn::tol * ( 1 + std::fabs( b ))) return;
    char s[128];
    std::snprintf( s, sizeof( s ), "%.17g <= %.17g does not hold", a, b );
    vpn::fail( l, i, s );
}
void vp_le_f32( float a, float b, const char* l, int i ) { vp_led( a, b, l, i ); }
void vp_le_f64( double a, double b, const char* l, int i ) { vp_led( a, b, l, i ); }
void vp_eq_i64( uint64_t g, uint64_t w, const char* l, int i )
{
    ++vpn::checks;
    if( g == w ) return;
    char s[128];
    std::snprintf( s, sizeof( s ), "got %lld want %lld", (long long)g, (long long)w );
    vpn::fail( l, i, s );
}
#endif
#ifndef VP_KEEP_RAND
int rand() noexcept
{
    static int k = 0;
    return (int)( vpn::bits( "rand_" + std::to_string( k++ )) & 0x7fffffff );
}
#endif
}
// unwritten stack reads as a pattern (NaN-free, huge), so that a missing write shows
__attribute__(( noinline )) static void vp_smear( int n )
{
    volatile unsigned char b[ 4096 ];
    memset( const_cast< unsigned char* >( b ), 0xFE, sizeof( b ));
    if( n ) vp_smear( n - 1 );
    b[0] = 0xFE;
}
int main( int argc, char** argv )
{
    vp_smear( 128 );
    if( argc < 3 ) { for( auto& f : vpn::fns()) std::printf( "%s\n", f.first.c_str()); return 0; }
    std::ifstream in( argv[2] );
    std::string k, v;
    while( in >> k )
    {
        if( k == "#" ) { std::getline( in, v ); continue; }
        in >> v;
        if( k.compare( 0, 2, "2~" ) == 0 ) vpn::runs = 2;
        if( k == "tol" ) vpn::tol = atof( v.c_str()); else vpn::vals()[ k ] = v;
    }
    auto f = vpn::fns().find( argv[1] );
    if( f == vpn::fns().end()) { std::printf( "no such harness\n" ); return 2; }
    try
    {
        f->second();
        if( vpn::runs > 1 )
        {
            // the library keeps state: the same again with other inputs
            vpn::again = "2~";
            f->second();
        }
    }
    catch( const std::exception& e ) { vpn::fail( "uncaught exception", -1, e.what()); }
    catch( ... ) { vpn::fail( "uncaught exception", -1, "?" ); }
    std::printf( "VP-DONE checks=%d fails=%d\n", vpn::checks, vpn::fails );
    std::fflush( stdout );
    std::_Exit( vpn::fails ? 1 : 0 );
}
