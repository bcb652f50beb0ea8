// Harness interface.  The same harness source is (a) compiled to LLVM IR and executed symbolically by
// /verif/engine, and (b) compiled natively with vp_native.hpp, which replays one assignment of the inputs
// against the real library.
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <limits>
#include <type_traits>

extern "C" {
// arbitrary inputs
float    vp_f32( const char* name, int i );
double   vp_f64( const char* name, int i );
float    vp_sp_f32( const char* name, int i ); // one of 0, -0, 1, -2, 4, inf, -inf, NaN
double   vp_sp_f64( const char* name, int i );
uint64_t vp_i64( const char* name, int i );
uint32_t vp_i32( const char* name, int i );
uint16_t vp_i16( const char* name, int i );
uint8_t  vp_i8( const char* name, int i );
bool     vp_bool( const char* name, int i );
uint64_t vp_pick( const char* name, int i, uint64_t n ); // 0 <= result < n, one path per value
void     vp_assume( bool c );
// obligations
void     vp_check( bool c, const char* label );
void     vp_eq_f32( float got, float want, const char* label, int i );
void     vp_eq_f64( double got, double want, const char* label, int i );
void     vp_le_f32( float a, float b, const char* label, int i );
void     vp_le_f64( double a, double b, const char* label, int i );
void     vp_eq_i64( uint64_t got, uint64_t want, const char* label, int i );
int      vp_symbolic();
uint64_t vp_live(); // live heap blocks
void     vp_par( int on ); // several threads run what is between vp_par( 1 ) and vp_par( 0 )
}

#ifdef VP_NATIVE
struct vp_reg { vp_reg( const char* n, void (*f)() ); };
#define VP_H_( fn ) extern "C" void fn(); static vp_reg reg_##fn( #fn, fn ); extern "C" void fn()
#else
#define VP_H_( fn ) extern "C" void fn()
#endif
// bit-precise floating point / exact real arithmetic / the same, thorough tier only
#define VP_FP( n ) VP_H_( h_fp_##n )
#define VP_REAL( n ) VP_H_( h_real_##n )
#define VPT_FP( n ) VP_H_( ht_fp_##n )
#define VPT_REAL( n ) VP_H_( ht_real_##n )

namespace vp
{
// typed arbitrary values
template< class T > T in( const char* n, int i = -1 );
template<> inline float in< float >( const char* n, int i ) { return vp_f32( n, i ); }
template<> inline double in< double >( const char* n, int i ) { return vp_f64( n, i ); }
template<> inline int in< int >( const char* n, int i ) { return (int)vp_i32( n, i ); }
template<> inline unsigned in< unsigned >( const char* n, int i ) { return vp_i32( n, i ); }
template<> inline uint16_t in< uint16_t >( const char* n, int i ) { return vp_i16( n, i ); }
template<> inline uint8_t in< uint8_t >( const char* n, int i ) { return vp_i8( n, i ); }
template<> inline int8_t in< int8_t >( const char* n, int i ) { return (int8_t)vp_i8( n, i ); }
template<> inline int16_t in< int16_t >( const char* n, int i ) { return (int16_t)vp_i16( n, i ); }
template<> inline uint64_t in< uint64_t >( const char* n, int i ) { return vp_i64( n, i ); }
template<> inline int64_t in< int64_t >( const char* n, int i ) { return (int64_t)vp_i64( n, i ); }
template<> inline bool in< bool >( const char* n, int i ) { return vp_bool( n, i ); }

// got == want (exactly over the reals in real mode; up to the replay tolerance natively)
inline void eq( float g, float w, const char* l, int i = -1 ) { vp_eq_f32( g, w, l, i ); }
inline void eq( double g, double w, const char* l, int i = -1 ) { vp_eq_f64( g, w, l, i ); }
template< class T >
inline typename std::enable_if< std::is_integral< T >::value >::type
eq( T g, T w, const char* l, int i = -1 ) { vp_eq_i64( (uint64_t)(int64_t)g, (uint64_t)(int64_t)w, l, i ); }
inline void le( float a, float b, const char* l, int i = -1 ) { vp_le_f32( a, b, l, i ); }
inline void le( double a, double b, const char* l, int i = -1 ) { vp_le_f64( a, b, l, i ); }
template< class T >
inline typename std::enable_if< std::is_integral< T >::value >::type
le( T a, T b, const char* l, int = -1 ) { vp_check( a <= b, l ); }
inline void check( bool c, const char* l ) { vp_check( c, l ); }
inline void assume( bool c ) { vp_assume( c ); }

// assume an ordinary number
template< class T > inline typename std::enable_if< std::is_floating_point< T >::value >::type fin( T v )
{
    vp_assume( v == v );
    vp_assume( v <= std::numeric_limits< T >::max() );
    vp_assume( v >= -std::numeric_limits< T >::max() );
}
template< class T > inline typename std::enable_if< !std::is_floating_point< T >::value >::type fin( T ) {}
// Special values: while one of these lives, inf_() draws floating point numbers from 0, -0, 1, -2, 4, infinities and NaN.  Sums
// and products of such values do not round, so that every way of computing the same terms has to give the same result.
struct Special
{
    Special() { on() = true; }
    ~Special() { on() = false; }
    static bool& on() { static bool flag = false; return flag; }
};
inline bool special( float& v, const char* n, int i ) { if( Special::on( )) v = vp_sp_f32( n, i ); return Special::on(); }
inline bool special( double& v, const char* n, int i ) { if( Special::on( )) v = vp_sp_f64( n, i ); return Special::on(); }
template< class T > inline typename std::enable_if< !std::is_floating_point< T >::value, bool >::type special( T&, const char*, int ) { return false; }
template< class T > inline T inf_( const char* n, int i = -1 ) { T v; if( special( v, n, i )) return v; v = in< T >( n, i ); fin( v ); return v; }
template< class T > inline T nn( const char* n, int i = -1 ) { T v = in< T >( n, i ); vp_assume( v == v ); return v; }
// an arbitrary value whose sums and products of a few terms stay in range: int is drawn from 8 bits
template< class T > inline T mod( const char* n, int i = -1 ) { return inf_< T >( n, i ); }
template<> inline int mod< int >( const char* n, int i ) { return in< int16_t >( n, i ) >> 2; }
template< class T > inline T absv( T a ) { return a < T( 0 ) ? T( -a ) : a; }
}

#ifdef VP_TSAN
#include <thread>
#endif
namespace vp
{
// Several threads run f at the same time.  Whatever existed before is shared by them: nothing of it may be written.  As each
// thread then only writes what belongs to itself, every interleaving gives the result of running f alone.
template< class F > inline void threads( const F& f )
{
#ifdef VP_TSAN
    std::thread a( [&] { for( int i = 0; i < 3; ++i ) f(); } ), b( [&] { for( int i = 0; i < 3; ++i ) f(); } );
    a.join();
    b.join();
#elif defined( VP_BALANCE )
    // the first run may set up what is kept for good
    f();
    const uint64_t before = vp_live();
    f();
    vp_check( vp_live() == before, "no memory is left allocated" );
#else
    vp_par( 1 );
    f();
    vp_par( 0 );
#endif
}
}

// does calling `expr` throw?
#define VP_THROWS( flag, expr ) do { flag = false; try { expr; } catch( ... ) { flag = true; } } while( 0 )

#endif
