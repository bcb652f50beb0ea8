// Stream model for the harnesses.  Symbolically an ostream or istream is an object with the real layout ( so that width(),
// precision(), flags() and the stream state are the real inline functions ) whose formatted output and input end in a list of
// tokens, and a file stream reads and writes one modelled file.  libstdc++'s string and stream templates are executed; replaced
// are only the functions that reach locales and system calls ( vpo_* ).  Natively everything is real: string streams, and files
// in a scratch directory.
#ifndef VP_STREAM_H
#define VP_STREAM_H
#include "vp.h"
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>

namespace vps
{
// ---- what should have been printed
struct tok { int kind; char c; double d; long i; int prec, width; int flags; };
enum { CHAR, FLOATING, INTEGER };
static const int MAXTOK = 700;
struct list
{
    tok t[ MAXTOK ];
    int n;
    void add( const tok& x ) { if( n < MAXTOK ) t[ n++ ] = x; }
    void ch( char c ) { tok x = { CHAR, c, 0, 0, 0, 0, 0 }; add( x ); }
    void text( const char* s ) { for( ; *s; ++s ) ch( *s ); }
    void val( double d, int prec, int width, int flags ) { tok x = { FLOATING, 0, d, 0, prec, width, flags }; add( x ); }
    void val( float d, int prec, int width, int flags ) { val( double( d ), prec, width, flags ); }
    void val( int i, int prec, int width, int flags ) { tok x = { INTEGER, 0, 0, i, prec, width, flags }; add( x ); }
    void val( unsigned i, int prec, int width, int flags ) { tok x = { INTEGER, 0, 0, long( i ), prec, width, flags }; add( x ); }
};

#ifdef VP_NATIVE
struct out : std::ostringstream {};
inline std::ostream& os( out& o ) { return o; }
inline void start( out& ) {}
inline std::string render( const list& l )
{
    std::ostringstream r;
    for( int i = 0; i < l.n; ++i )
    {
        const tok& t = l.t[i];
        if( t.kind == CHAR ) { r << std::setw( 0 ) << t.c; continue; }
        r.precision( t.prec );
        r.flags( std::ios_base::fmtflags( t.flags ));
        r << std::setw( t.width );
        if( t.kind == FLOATING ) r << t.d; else r << t.i;
    }
    return r.str();
}
inline void expect( out& o, const list& l, const char* label ) { vp::check( o.str() == render( l ), label ); }
struct in : std::istringstream { in() : std::istringstream( "" ) {} };
inline std::istream& is( in& i ) { return i; }
inline void feed( in& i, const list& l ) { i.str( render( l )); i.clear(); }
inline void feed( in& i, out& o ) { i.str( o.str( )); i.clear(); }
#else
static list g_out;      // everything printed
static list g_in;       // what input streams read
static int g_rd = 0;
struct file { char path[64]; int plen; unsigned char data[512]; int len; bool exists; bool can; int opened; bool writing; };
static file g_file;

// an object with the layout of a stream: the virtual base std::ios lies at the end
static long g_vt_os[4] = { long( sizeof( std::ostream ) - sizeof( std::ios )), 0, 0, 0 };
static long g_vt_is[4] = { long( sizeof( std::istream ) - sizeof( std::ios )), 0, 0, 0 };
static long g_vt_of[4] = { long( sizeof( std::ofstream ) - sizeof( std::ios )), 0, 0, 0 };
static long g_vt_if[4] = { long( sizeof( std::ifstream ) - sizeof( std::ios )), 0, 0, 0 };
struct peek : std::ios_base
{
    static void init( std::ios_base* p )
    {
        peek* q = static_cast< peek* >( p );
        q->_M_precision = 6;
        q->_M_width = 0;
        q->_M_flags = std::ios_base::skipws | std::ios_base::dec;
        q->_M_exception = std::ios_base::goodbit;
        q->_M_streambuf_state = std::ios_base::goodbit;
    }
    static void bits( std::ios_base* p, std::ios_base::iostate s )
    {
        peek* q = static_cast< peek* >( p );
        q->_M_streambuf_state = q->_M_streambuf_state | s;
    }
};
inline void fake( void* p, size_t n, long* vt )
{
    memset( p, 0, n );
    *(long**)p = vt + 3;
    peek::init( (std::ios_base*)((char*)p + vt[0] ));
}
struct out { alignas( 16 ) char m[ sizeof( std::ostream ) ]; out() { fake( m, sizeof( m ), g_vt_os ); g_out.n = 0; } };
struct in { alignas( 16 ) char m[ sizeof( std::istream ) ]; in() { fake( m, sizeof( m ), g_vt_is ); g_rd = 0; g_in.n = 0; } };
inline std::ostream& os( out& o ) { return *(std::ostream*)o.m; }
inline std::istream& is( in& i ) { return *(std::istream*)i.m; }
inline bool same( const tok& a, const tok& b )
{
    if( a.kind != b.kind )
        return false;
    if( a.kind == CHAR )
        return a.c == b.c;
    if( a.width != b.width || ( a.kind == FLOATING && ( a.prec != b.prec || a.d != b.d )) || ( a.kind == INTEGER && a.i != b.i ))
        return false;
    // padding on the left: right or no adjustment
    const int adj = std::ios_base::left | std::ios_base::right | std::ios_base::internal;
    const int fa = a.flags & adj, fb = b.flags & adj;
    const int nl = std::ios_base::left, ni = std::ios_base::internal;
    if( a.width > 0 && (( fa == nl ) != ( fb == nl ) || ( fa == ni ) != ( fb == ni )))
        return false;
    return ( a.flags & ~adj ) == ( b.flags & ~adj );
}
inline void expect( out&, const list& l, const char* label )
{
    if( g_out.n != l.n )
    {
        vp::check( false, label );
        return;
    }
    for( int i = 0; i < l.n; ++i )
        vp::check( same( g_out.t[i], l.t[i] ), label );
}
inline void feed( in&, const list& l ) { for( int i = 0; i < l.n; ++i ) g_in.t[i] = l.t[i]; g_in.n = l.n; g_rd = 0; }
inline void feed( in&, out& ) { for( int i = 0; i < g_out.n; ++i ) g_in.t[i] = g_out.t[i]; g_in.n = g_out.n; g_rd = 0; }

// ---- output
inline std::ios& base( std::ostream* o ) { return *o; }
inline void number( std::ostream* o, int kind, double d, long i )
{
    tok t = { kind, 0, d, i, int( base( o ).precision( )), int( base( o ).width( )), int( base( o ).flags( )) };
    g_out.add( t );
    base( o ).width( 0 );
}
inline bool space( char c ) { return c == ' ' || ( c >= '\t' && c <= '\r' ); }
inline bool digit( const tok& t ) { return t.kind != CHAR || ( t.c >= '0' && t.c <= '9' ) || t.c == '.' || t.c == 'e' || t.c == 'E'; }
// ---- input
template< class T > inline std::istream& extract( std::istream* s, T& v )
{
    std::ios& b = *s;
    if( !b.good( ))
    {
        peek::bits( &b, std::ios_base::failbit );
        return *s;
    }
    while( g_rd < g_in.n && g_in.t[ g_rd ].kind == CHAR && space( g_in.t[ g_rd ].c ))
        ++g_rd;
    if( g_rd >= g_in.n || g_in.t[ g_rd ].kind == CHAR )
    {
        v = T( 0 );
        peek::bits( &b, std::ios_base::failbit );
        return *s;
    }
    const tok& t = g_in.t[ g_rd++ ];
    v = t.kind == FLOATING ? T( t.d ) : T( t.i );
    if( g_rd < g_in.n && digit( g_in.t[ g_rd ] )) // runs into the next number
    {
        v = T( 0 );
        while( g_rd < g_in.n && digit( g_in.t[ g_rd ] ))
            ++g_rd;
    }
    if( g_rd >= g_in.n )
        peek::bits( &b, std::ios_base::eofbit );
    return *s;
}
inline void fopen_( void* p, std::ios* b, const char* name, bool writing )
{
    file& f = g_file;
    f.plen = 0;
    for( ; name[ f.plen ] && f.plen < 63; ++f.plen )
        f.path[ f.plen ] = name[ f.plen ];
    f.path[ f.plen ] = 0;
    f.writing = writing;
    f.opened = f.can ? 1 : 0;
    if( !f.can )
        peek::bits( b, std::ios_base::failbit );
    else if( writing )
    {
        f.len = 0;
        f.exists = true;
    }
}
inline void fwrite_( const char* d, long n )
{
    file& f = g_file;
    vp::check( f.len + n <= 512, "the file has the size of the elements" );
    memcpy( f.data + f.len, d, n );
    f.len += int( n );
}
#endif
}

#ifndef VP_NATIVE
extern "C" {
using std::ostream; using std::istream; using std::ofstream; using std::ifstream;
alignas( 16 ) char vpo__ZSt4cout[ sizeof( std::ostream ) ];
alignas( 16 ) char vpo__ZSt4cerr[ sizeof( std::ostream ) ];
size_t vpo_strlen( const char* s ) { size_t n = 0; while( s[n] ) ++n; return n; }
const void* vpo_memchr( const void* p, int c, size_t n )
{
    const unsigned char* s = (const unsigned char*)p;
    for( size_t i = 0; i < n; ++i )
        if( s[i] == (unsigned char)c )
            return s + i;
    return 0;
}
ostream* vpo__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l( ostream* o, const char* s, long n )
{
    if( (char*)o == vpo__ZSt4cout || (char*)o == vpo__ZSt4cerr )
        return o;
    std::ios& b = *o;
    const long w = b.width(), pad = w > n ? w - n : 0;
    const bool left = ( b.flags() & std::ios_base::adjustfield ) == std::ios_base::left;
    if( !left )
        for( long i = 0; i < pad; ++i ) vps::g_out.ch( ' ' );
    for( long i = 0; i < n; ++i ) vps::g_out.ch( s[i] );
    if( left )
        for( long i = 0; i < pad; ++i ) vps::g_out.ch( ' ' );
    b.width( 0 );
    return o;
}
ostream* vpo__ZNSo9_M_insertIdEERSoT_( ostream* o, double d ) { vps::number( o, vps::FLOATING, d, 0 ); return o; }
ostream* vpo__ZNSo9_M_insertIlEERSoT_( ostream* o, long i ) { vps::number( o, vps::INTEGER, 0, i ); return o; }
ostream* vpo__ZNSo9_M_insertImEERSoT_( ostream* o, unsigned long i ) { vps::number( o, vps::INTEGER, 0, long( i )); return o; }
ostream* vpo__ZNSo3putEc( ostream* o, char c )
{
    if( (char*)o != vpo__ZSt4cout && (char*)o != vpo__ZSt4cerr )
        vps::g_out.ch( c );
    return o;
}
ostream* vpo__ZNSo5flushEv( ostream* o ) { return o; }
char vpo__ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc( const std::ios*, char c ) { return c; }
ostream* vpo__ZNSo5writeEPKcl( ostream* o, const char* d, long n ) { vps::fwrite_( d, n ); return o; }
istream* vpo__ZNSi10_M_extractIfEERSiRT_( istream* s, float* v ) { return &vps::extract( s, *v ); }
istream* vpo__ZNSi10_M_extractIdEERSiRT_( istream* s, double* v ) { return &vps::extract( s, *v ); }
istream* vpo__ZNSi10_M_extractIjEERSiRT_( istream* s, unsigned* v ) { return &vps::extract( s, *v ); }
istream* vpo__ZNSi10_M_extractIlEERSiRT_( istream* s, long* v ) { return &vps::extract( s, *v ); }
istream* vpo__ZNSirsERi( istream* s, int* v ) { return &vps::extract( s, *v ); }
istream* vpo__ZNSi4readEPcl( istream* s, char* d, long n )
{
    vps::file& f = vps::g_file;
    const long m = n < f.len ? n : f.len;
    memcpy( d, f.data, m );
    if( m < n )
        vps::peek::bits( (std::ios*)s, std::ios_base::failbit | std::ios_base::eofbit );
    return s;
}
// file streams
void vpo__ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1Ev( ofstream* o ) { vps::fake( o, sizeof( *o ), vps::g_vt_of ); }
void vpo__ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1Ev( ifstream* o ) { vps::fake( o, sizeof( *o ), vps::g_vt_if ); }
void vpo__ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev( ofstream* ) {}
void vpo__ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev( ifstream* ) {}
void vpo__ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode( ofstream* o, const char* n, int )
{ vps::fopen_( o, (std::ios*)((char*)o + vps::g_vt_of[0] ), n, true ); }
void vpo__ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode( ifstream* o, const char* n, int )
{ vps::fopen_( o, (std::ios*)((char*)o + vps::g_vt_if[0] ), n, false ); }
void vpo__ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode( ofstream* o, const char* n, int )
{ vps::fake( o, sizeof( *o ), vps::g_vt_of ); vps::fopen_( o, (std::ios*)((char*)o + vps::g_vt_of[0] ), n, true ); }
void vpo__ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode( ifstream* o, const char* n, int )
{ vps::fake( o, sizeof( *o ), vps::g_vt_if ); vps::fopen_( o, (std::ios*)((char*)o + vps::g_vt_if[0] ), n, false ); }
bool vpo__ZNSt14basic_ofstreamIcSt11char_traitsIcEE7is_openEv( ofstream* ) { return vps::g_file.opened != 0; }
bool vpo__ZNSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv( ifstream* ) { return vps::g_file.opened != 0; }
bool vpo__ZNKSt14basic_ofstreamIcSt11char_traitsIcEE7is_openEv( const ofstream* ) { return vps::g_file.opened != 0; }
bool vpo__ZNKSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv( const ifstream* ) { return vps::g_file.opened != 0; }
void vpo__ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv( ofstream* ) { vps::g_file.opened = 0; }
void vpo__ZNSt14basic_ifstreamIcSt11char_traitsIcEE5closeEv( ifstream* ) { vps::g_file.opened = 0; }
}
#endif
#endif
